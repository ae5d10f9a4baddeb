package props

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"fmt"
	"io"
	"reflect"
	"regexp"
	"strings"
	"sync"

	"github.com/qjebbs/go-sqlf/v2"
	"github.com/qjebbs/go-sqlf/v2/sqlb"
	"github.com/qjebbs/go-sqlf/v2/syntax"
	"github.com/qjebbs/go-sqlf/v2/util"
	"verif.local/mc/ex"
	"verif.local/mc/ref"
)

// dbFault is an error of the fake database.
type dbFault struct{ at string }

func (e *dbFault) Error() string { return "fault: " + e.at }

// fakeDB is a scripted database: it answers every query with the rows, the
// fault is injected where scripted. It records what reaches it.
type fakeDB struct {
	mu       sync.Mutex
	cols     int
	rows     [][]driver.Value
	fault    string // "", connect, query, prepare, stmt, close, begin
	nextAt   int    // Next fails instead of delivering row nextAt (0 based), -1 never
	prepare  bool   // no direct queries, only prepared ones
	strict   bool   // the default conversion of args
	numInput int    // -1 unknown
	err      error

	queries   []string
	args      [][]any
	opened    int // result sets
	closed    int
	overclose int
	fetches   int
}

func (d *fakeDB) Connect(context.Context) (driver.Conn, error) {
	if d.fault == "connect" {
		return nil, d.err
	}
	if d.strict {
		return &fakeConn{d}, nil
	}
	return &looseConn{fakeConn{d}}, nil
}
func (d *fakeDB) Driver() driver.Driver            { return d }
func (d *fakeDB) Open(string) (driver.Conn, error) { return d.Connect(context.Background()) }
func (d *fakeDB) record(q string, a []any, fail bool) {
	d.queries = append(d.queries, q)
	d.args = append(d.args, a)
	if !fail {
		d.opened++
	}
}

type fakeConn struct{ d *fakeDB }

// looseConn takes args of any type.
type looseConn struct{ fakeConn }

func (c *looseConn) CheckNamedValue(*driver.NamedValue) error { return nil }

func (c *fakeConn) Prepare(q string) (driver.Stmt, error) {
	c.d.mu.Lock()
	defer c.d.mu.Unlock()
	if c.d.fault == "prepare" {
		return nil, c.d.err
	}
	return &fakeStmt{c.d, q}, nil
}
func (c *fakeConn) Close() error { return nil }
func (c *fakeConn) Begin() (driver.Tx, error) {
	return fakeTx{}, nil
}
func (c *fakeConn) QueryContext(_ context.Context, q string, args []driver.NamedValue) (driver.Rows, error) {
	if c.d.prepare {
		return nil, driver.ErrSkip
	}
	return c.d.query("query", q, args)
}

func (d *fakeDB) query(at, q string, args []driver.NamedValue) (driver.Rows, error) {
	d.mu.Lock()
	defer d.mu.Unlock()
	var a []any
	for _, v := range args {
		a = append(a, v.Value)
	}
	d.record(q, a, d.fault == at)
	if d.fault == at {
		return nil, d.err
	}
	return &fakeRows{d: d}, nil
}

type fakeTx struct{}

func (fakeTx) Commit() error   { return nil }
func (fakeTx) Rollback() error { return nil }

type fakeStmt struct {
	d *fakeDB
	q string
}

func (s *fakeStmt) Close() error                               { return nil }
func (s *fakeStmt) NumInput() int                              { return s.d.numInput }
func (s *fakeStmt) Exec([]driver.Value) (driver.Result, error) { return nil, errors.New("exec") }
func (s *fakeStmt) Query([]driver.Value) (driver.Rows, error)  { return nil, errors.New("not used") }
func (s *fakeStmt) QueryContext(_ context.Context, args []driver.NamedValue) (driver.Rows, error) {
	return s.d.query("stmt", s.q, args)
}

type fakeRows struct {
	d      *fakeDB
	i      int
	closed bool
}

func (r *fakeRows) Columns() []string {
	s := make([]string, r.d.cols)
	for i := range s {
		s[i] = fmt.Sprint("c", i)
	}
	return s
}
func (r *fakeRows) Close() error {
	r.d.mu.Lock()
	defer r.d.mu.Unlock()
	if r.closed {
		r.d.overclose++
	}
	r.closed = true
	r.d.closed++
	if r.d.fault == "close" {
		return r.d.err
	}
	return nil
}
func (r *fakeRows) Next(dest []driver.Value) error {
	r.d.mu.Lock()
	defer r.d.mu.Unlock()
	r.d.fetches++
	if r.i == r.d.nextAt {
		return r.d.err
	}
	if r.i >= len(r.d.rows) {
		return io.EOF
	}
	copy(dest, r.d.rows[r.i])
	r.i++
	return nil
}

// caller counts what is asked of the QueryAble.
type caller struct {
	util.QueryAble
	calls []string
}

func (c *caller) Query(q string, args ...any) (*sql.Rows, error) {
	c.calls = append(c.calls, "Query")
	return c.QueryAble.Query(q, args...)
}
func (c *caller) QueryRow(q string, args ...any) *sql.Row {
	c.calls = append(c.calls, "QueryRow")
	return c.QueryAble.QueryRow(q, args...)
}
func (c *caller) Prepare(q string) (*sql.Stmt, error) {
	c.calls = append(c.calls, "Prepare")
	return c.QueryAble.Prepare(q)
}
func (c *caller) Exec(q string, args ...any) (sql.Result, error) {
	c.calls = append(c.calls, "Exec")
	return c.QueryAble.Exec(q, args...)
}

// with runs f with the fake database opened, and checks what's left behind.
func (d *fakeDB) with(c *ex.C, tx bool, f func(q *caller)) {
	if d.err == nil {
		d.err = &dbFault{"scripted"}
	}
	db := sql.OpenDB(d)
	db.SetMaxOpenConns(1)
	defer db.Close()
	cl := &caller{QueryAble: db}
	if tx {
		t, err := db.Begin()
		if err != nil {
			c.Skip() // can't even begin
		}
		defer t.Rollback()
		cl.QueryAble = t
	}
	f(cl)
	if d.opened != d.closed || d.overclose > 0 {
		c.Failf("%d result sets were opened, %d closed, %d twice", d.opened, d.closed, d.overclose)
	}
	if n := db.Stats().InUse; !tx && n != 0 {
		c.Failf("%d connections are left in use", n)
	}
}

// failScan is a destination that fails.
type failScan struct{ err error }

func (f *failScan) Scan(any) error { return f.err }

// gather is a destination for anything.
type gather struct {
	vals []any
	n    int
}

func (g *gather) Scan(v any) error { g.vals = append(g.vals, v); g.n++; return nil }

// row is a destination.
type row struct {
	i  int64
	s  string
	a  any
	n  sql.NullInt64
	g  gather
	p  *int64
	id int
}

// fields of the row in the order of a layout; the columns deliver int64s.
func (r *row) fields(layout int, n int, fail int, err error) []any {
	var f []any
	switch layout {
	case 0:
		f = []any{&r.i, &r.s, &r.a}
	case 1:
		f = []any{&r.a, &r.g, &r.n}
	case 2:
		f = []any{&r.p, &r.i, &r.g}
	}
	f = f[:n]
	if fail >= 0 && fail < n {
		f[fail] = &failScan{err}
	}
	// spare capacity of the caller
	spare := make([]any, n, n+5)
	copy(spare, f)
	return spare
}

// want is what the row is if the first n columns have the values.
func wantRow(layout int, vals []int64) row {
	var r row
	for i, v := range vals {
		switch fmt.Sprint(layout, i) {
		case "0 0", "2 1":
			r.i = v
		case "0 1":
			r.s = fmt.Sprint(v)
		case "0 2", "1 0":
			r.a = v
		case "1 1", "2 2":
			r.g.vals = append(r.g.vals, v)
			r.g.n++
		case "1 2":
			r.n = sql.NullInt64{Int64: v, Valid: true}
		case "2 0":
			w := v
			r.p = &w
		}
	}
	return r
}

// scanCase is a case of Scan.
type scanCase struct {
	rows, cols, fields int
	layout             int
	fault              string
	nextAt             int
	badRow, badCol     int // cell that can't be converted
	bad                int // kind of failing cell
	wide               int // row from which on one field more is wanted
	tx, prepare        bool
	args               []any
}

func (s scanCase) String() string { return fmt.Sprintf("%+v", struct{ X any }{s.plain()}) }
func (s scanCase) plain() any {
	return []any{"rows", s.rows, "cols", s.cols, "fields", s.fields, "layout", s.layout, "fault", s.fault, "next fails at", s.nextAt, "bad cell", s.badRow, s.badCol, s.bad, "wide from row", s.wide, "tx", s.tx, "prepare", s.prepare, "args", len(s.args)}
}

func (s scanCase) run(c *ex.C, scan func(db util.QueryAble, fn func() (*row, []any)) ([]*row, error)) {
	d := &fakeDB{cols: s.cols, fault: s.fault, nextAt: s.nextAt, prepare: s.prepare, numInput: -1}
	scanErr := errors.New("scan failed")
	for i := 0; i < s.rows; i++ {
		r := make([]driver.Value, s.cols)
		for k := range r {
			r[k] = int64(10*i + k + 1)
		}
		if i == s.badRow && s.badCol >= 0 && s.badCol < s.cols {
			switch s.bad {
			case 1:
				r[s.badCol] = nil
			case 2:
				r[s.badCol] = "x"
			}
		}
		d.rows = append(d.rows, r)
	}
	var wantErr error // errAny if which error is not told
	errAny := errors.New("any error")
	switch {
	case s.fault == "connect" || !s.prepare && s.fault == "query" || s.prepare && (s.fault == "prepare" || s.fault == "stmt"):
		d.err = &dbFault{s.fault}
		wantErr = d.err
	default:
		d.err = &dbFault{s.fault}
		for i := 0; wantErr == nil; i++ {
			if i == s.nextAt {
				wantErr = d.err
				break
			}
			if i == s.rows {
				break
			}
			n := s.fields
			if s.wide >= 0 && i >= s.wide {
				n++
			}
			if n > s.cols {
				wantErr = errAny
			} else if i == s.badRow && s.badCol < n && s.badCol >= 0 {
				switch s.bad {
				case 0:
					wantErr = scanErr
				case 1, 2:
					wantErr = errAny
				}
			}
		}
	}
	var dests []*row
	var spares [][]any
	d.with(c, s.tx, func(q *caller) {
		got, err := scan(q, func() (*row, []any) {
			r := &row{id: len(dests)}
			n := s.fields
			if s.wide >= 0 && len(dests) >= s.wide {
				n++
			}
			fail := -1
			if s.bad == 0 && len(dests) == s.badRow {
				fail = s.badCol
			}
			f := r.fields(s.layout, n, fail, scanErr)
			dests = append(dests, r)
			spares = append(spares, f)
			return r, f
		})
		if strings.Join(q.calls, ",") != "Query" {
			c.Failf("calls of the database: %v, want one Query", q.calls)
		}
		for _, f := range spares {
			for i, v := range f[len(f):cap(f)] {
				if v != nil {
					c.Failf("field %d behind the caller's %d fields is overwritten by %T", i+len(f), len(f), v)
				}
			}
		}
		if wantErr != nil {
			if err == nil {
				c.Failf("returned %d rows and no error, want error %v", len(got), wantErr)
			}
			if wantErr != errAny && !errors.Is(err, wantErr) {
				c.Failf("the error is %v, want %v", err, wantErr)
			}
			if len(got) != 0 {
				c.Failf("%d rows are returned along with the error %v", len(got), err)
			}
			c.Class("error")
			c.State(fmt.Sprint("error ", len(dests), s.fault, s.cols, s.fields))
			return
		}
		if err != nil && s.fault != "close" {
			c.Failf("failed: %v", err)
		}
		if err != nil {
			if len(got) != 0 {
				c.Failf("%d rows are returned along with the error %v", len(got), err)
			}
			return
		}
		if len(got) != s.rows || len(dests) != s.rows {
			c.Failf("%d rows are returned and %d destinations made, want %d", len(got), len(dests), s.rows)
		}
		for i, r := range got {
			if r != dests[i] {
				c.Failf("row %d is destination %d", i+1, r.id+1)
			}
			var vals []int64
			n := s.fields
			if s.wide >= 0 && i >= s.wide {
				n++
			}
			for k := 0; k < n; k++ {
				vals = append(vals, int64(10*i+k+1))
			}
			w := wantRow(s.layout, vals)
			w.id = i
			if !reflect.DeepEqual(*r, w) {
				c.Failf("row %d is %+v, want %+v", i+1, *r, w)
			}
		}
		c.Class("ok")
		c.State(fmt.Sprint("ok ", len(got), s.fields, s.cols, s.layout))
	})
	if len(d.queries) > 1 {
		c.Failf("the query is run %d times", len(d.queries))
	}
	if len(d.queries) == 1 && (d.queries[0] != scanQuery || !SameValues(d.args[0], s.args)) {
		c.Failf("%q %s is run, want %q %s", d.queries[0], ref.ShowValues(d.args[0]), scanQuery, ref.ShowValues(s.args))
	}
}

const scanQuery = "SELECT '?%s', x FROM t -- $1"

func genScan(c *ex.C, rows, cols int) scanCase {
	s := scanCase{nextAt: -1, badRow: -1, badCol: -1, wide: -1}
	s.rows, s.cols, s.fields = c.N(rows+1), c.N(cols+1), c.N(4)
	s.layout = c.N(3)
	s.prepare = c.Bool()
	s.tx = c.Bool()
	s.args = ex.Pick(c, nil, []any{1, "a"})
	return s
}

// faults injects at most one fault of each kind chosen.
func (s *scanCase) inject(c *ex.C, kind int) {
	switch kind {
	case 0:
	case 1:
		s.fault = ex.Pick(c, "connect", "query", "prepare", "stmt", "close")
		if s.tx && s.fault == "connect" {
			c.Skip()
		}
	case 2:
		s.nextAt = c.N(s.rows + 1)
	case 3:
		if s.rows == 0 || s.cols == 0 {
			c.Skip()
		}
		s.badRow = c.N(s.rows)
		s.badCol = c.N(s.cols)
		s.bad = c.N(3)
		if s.bad == 1 && s.badCol < s.fields && !(s.layout == 0 && s.badCol <= 1 || s.layout == 2 && s.badCol == 1) {
			c.Skip() // takes NULL
		}
		if s.bad == 2 && s.badCol < s.fields && !(s.layout == 0 && s.badCol == 0 || s.layout == 1 && s.badCol == 2 || s.layout == 2 && s.badCol < 2) {
			c.Skip() // takes strings
		}
	case 4:
		if s.fields == 3 || s.rows == 0 || s.badRow >= 0 && s.badCol == s.fields && s.bad > 0 {
			c.Skip()
		}
		s.wide = c.N(s.rows)
	}
}

func init() {
	register(&Check{ID: "C23", Level: "fault_enumeration", Assumptions: []string{
		"The database is a scripted driver behind the real database/sql; driver.ErrBadConn, which database/sql retries itself, is not scripted.",
	}, Families: func(thorough bool) []*ex.Family {
		rows := choose(thorough, 3, 4)
		scan := func(q string, args []any) func(db util.QueryAble, fn func() (*row, []any)) ([]*row, error) {
			return func(db util.QueryAble, fn func() (*row, []any)) ([]*row, error) {
				return util.Scan(db, q, args, fn)
			}
		}
		fams := []*ex.Family{
			{Name: "one-fault", Rule: fmt.Sprintf("results of 0 to %d rows and 0 to %d columns scanned into 0 to 3 fields of 3 layouts, on a connection or in a transaction, direct or prepared, with no fault or one fault at every place it can happen", rows, rows+1),
				Body: func(c *ex.C) {
					s := genScan(c, rows, rows+1)
					s.inject(c, c.N(5))
					c.Desc(s.String)
					s.run(c, scan(scanQuery, s.args))
				}},
			{Name: "two-faults", Rule: "the same with two faults of different kinds (the first one met counts)",
				Body: func(c *ex.C) {
					s := genScan(c, choose(thorough, 2, 3), choose(thorough, 3, 4))
					k := c.N(4)
					s.inject(c, k+1)
					if k == 3 {
						c.Skip()
					}
					s.inject(c, k+2+c.N(3-k))
					c.Desc(s.String)
					s.run(c, scan(scanQuery, s.args))
				}},
			{Name: "many-rows", Rule: fmt.Sprintf("results of 0 to %d rows, narrow and wide, with no fault, or the fetch failing at each place", choose(thorough, 70, 270)),
				Body: func(c *ex.C) {
					s := scanCase{nextAt: -1, badRow: -1, badCol: -1, wide: -1, fields: 2, layout: 2, args: []any{1, "a"}}
					s.rows = c.N(choose(thorough, 71, 271))
					s.cols = ex.Pick(c, 2, 3, 20)
					s.nextAt = c.N(s.rows+2) - 1
					s.prepare = c.Bool()
					c.Desc(s.String)
					s.run(c, scan(scanQuery, s.args))
				}},
			{Name: "nested", Rule: "two results of 0 to 2 rows and 0 to 3 columns, one scanned while the other is or after it, with faults",
				Body: func(c *ex.C) {
					var s [2]scanCase
					for i := range s {
						s[i] = scanCase{nextAt: -1, badRow: -1, badCol: -1, wide: -1, args: []any{1, "a"}}
						s[i].rows, s[i].cols, s[i].fields = c.N(3), c.N(4), c.N(3)
						s[i].layout = c.N(choose(thorough, 2, 3))
						if c.Bool() {
							s[i].nextAt = c.N(s[i].rows + 1)
						}
					}
					nest := c.Bool()
					c.Desc(func() string { return fmt.Sprintf("nested %v: %s and %s", nest, s[0], s[1]) })
					s[0].run(c, func(db util.QueryAble, fn func() (*row, []any)) ([]*row, error) {
						return util.Scan(db, scanQuery, s[0].args, func() (*row, []any) {
							r, f := fn()
							if nest {
								s[1].run(c, scan(scanQuery, s[1].args))
							}
							return r, f
						})
					})
					if !nest {
						s[1].run(c, scan(scanQuery, s[1].args))
					}
				}},
			{Name: "scan-row", Rule: "ScanRow on every row of results of 0 to 4 columns into 0 to 4 fields with spare capacity, before, at and after a row that fails to convert",
				Body: func(c *ex.C) {
					cols, fields, n := c.N(5), c.N(5), 1+c.N(3)
					spare := c.N(4)
					badRow := c.N(n+1) - 1
					badCol := 0
					if badRow >= 0 && fields > 0 {
						badCol = c.N(fields)
					}
					c.Desc(func() string {
						return fmt.Sprintf("%d columns, %d fields, %d rows, cell %d,%d fails", cols, fields, n, badRow, badCol)
					})
					d := &fakeDB{cols: cols, nextAt: -1, numInput: -1}
					for i := 0; i < n; i++ {
						r := make([]driver.Value, cols)
						for k := range r {
							r[k] = int64(10*i + k)
						}
						d.rows = append(d.rows, r)
					}
					d.with(c, false, func(q *caller) {
						rows, err := q.Query("q")
						if err != nil {
							c.Failf("query: %v", err)
						}
						defer rows.Close()
						for i := 0; rows.Next(); i++ {
							vals := make([]int64, fields)
							dest := make([]any, fields, fields+spare)
							for k := range dest {
								dest[k] = &vals[k]
								if i == badRow && k == badCol {
									dest[k] = &failScan{errBoom}
								}
							}
							keep := append([]any{}, dest...)
							err := util.ScanRow(rows, dest...)
							if !SameValues(keep, dest) {
								c.Failf("the destinations are changed")
							}
							for _, v := range dest[fields:cap(dest)] {
								if v != nil {
									c.Failf("wrote behind the destinations")
								}
							}
							bad := i == badRow && fields > 0 && badCol < fields
							if (fields > cols || bad) != (err != nil) {
								c.Failf("row %d: error %v", i+1, err)
							}
							if bad && fields <= cols && !errors.Is(err, errBoom) {
								c.Failf("row %d: error %v does not match the one of the destination", i+1, err)
							}
							if err == nil {
								for k, v := range vals {
									if v != int64(10*i+k) {
										c.Failf("row %d field %d is %d", i+1, k+1, v)
									}
								}
							}
							c.State(fmt.Sprint(cols, fields, i, err != nil))
						}
					})
				}},
			{Name: "no-closing-by-us", Rule: "ScanRow after the rows are closed is an error",
				Body: func(c *ex.C) {
					d := &fakeDB{cols: c.N(3), rows: make([][]driver.Value, c.N(3)), nextAt: -1}
					steps := c.N(3)
					d.with(c, false, func(q *caller) {
						rows, err := q.Query("q")
						if err != nil {
							c.Failf("query: %v", err)
						}
						for ; steps > 0; steps-- {
							rows.Next()
						}
						rows.Close()
						if err := util.ScanRow(rows); err == nil {
							c.Failf("no error")
						}
						c.State(fmt.Sprint(d.cols, len(d.rows)))
					})
				}},
			{Name: "panicking-destination", Rule: "the function making destinations panics at each row: the result set is closed all the same",
				Body: func(c *ex.C) {
					n := 1 + c.N(4)
					at := c.N(n)
					tx, prep := c.Bool(), c.Bool()
					d := &fakeDB{cols: 1, nextAt: -1, prepare: prep, numInput: -1}
					for i := 0; i < n; i++ {
						d.rows = append(d.rows, []driver.Value{int64(i)})
					}
					c.Desc(func() string { return fmt.Sprintf("panic at row %d of %d", at+1, n) })
					d.with(c, tx, func(q *caller) {
						i := 0
						defer func() {
							if e := recover(); e != nil && e != any("mine") {
								panic(e)
							}
						}()
						_, err := util.Scan(q, "q", nil, func() (int, []any) {
							if i == at {
								panic("mine")
							}
							i++
							return i, []any{new(int)}
						})
						if err == nil {
							c.Failf("the panic is lost")
						}
					})
					c.State(fmt.Sprint(n, at))
				}},
		}
		return fams
	}})

	register(&Check{ID: "C24", Level: "fault_enumeration", Assumptions: []string{
		"The database is a scripted driver behind the real database/sql; driver.ErrBadConn, which database/sql retries itself, is not scripted.",
	}, Families: func(thorough bool) []*ex.Family {
		return []*ex.Family{
			{Name: "count", Rule: "Count of 16 queries with 5 lists of args, on a connection or in a transaction, direct or prepared, for 16 answers of the database and faults at every step",
				Body: func(c *ex.C) { countCase(c, false) }},
			{Name: "count-builder", Rule: "CountBuilder of scripted builders, all styles, the same answers and faults",
				Body: func(c *ex.C) { countCase(c, true) }},
			{Name: "scan-builder", Rule: "ScanBuilder of scripted builders, all styles, on results of 0 to 2 rows and 0 to 3 columns with no fault or one fault at every place",
				Body: func(c *ex.C) {
					s := genScan(c, 2, 3)
					s.inject(c, c.N(5))
					style := ex.Pick(c, syntax.Dollar, syntax.Question)
					fails := c.Bool()
					b := &scriptedBuilder{query: scanQuery, args: s.args}
					if fails {
						b.err = errBoom
						b.keep = c.Bool()
					}
					c.Desc(func() string { return fmt.Sprintf("builder fails: %v, %s", fails, s) })
					run := func(db util.QueryAble, fn func() (*row, []any)) ([]*row, error) {
						return util.ScanBuilder(db, b, style, fn)
					}
					if !fails {
						s.run(c, run)
					} else {
						d := &fakeDB{nextAt: -1}
						d.with(c, s.tx, func(q *caller) {
							got, err := run(q, func() (*row, []any) { c.Failf("called"); return nil, nil })
							if err != errBoom && !errors.Is(err, errBoom) || got != nil {
								c.Failf("returned %v, %v", got, err)
							}
							if len(q.calls) > 0 || len(d.queries) > 0 {
								c.Failf("a query is run: %v", d.queries)
							}
						})
						c.State("build fails")
					}
					if b.n != 1 || b.style != style {
						c.Failf("built %d times, in style %v, want once in %v", b.n, b.style, style)
					}
				}},
			{Name: "real-builders", Rule: "all fragment trees of one level of up to 2 pieces, and all query builder histories of 1 call after 7 beginnings, through ScanBuilder and CountBuilder in both styles: exactly the query and args of the model reach the database, nothing if building fails",
				Body: func(c *ex.C) {
					im := &ref.Impl{}
					dollar := c.Bool()
					var b sqlf.QueryBuilder
					var w ref.Result
					var show string
					if c.Bool() {
						h := append([]int{}, historyStarts[c.N(len(historyStarts))]...)
						for n := c.N(choose(thorough, 2, 3)); n > 0; n-- {
							h = append(h, c.N(len(historyOps(&vals{}))))
						}
						q := history(h)
						b, w, show = im.Builder(q), q.Result(dollar), q.Show()
					} else {
						g := &treeGen{c: c, pieces: []int{2, 1}, maxArgs: []int{2, 1}, maxFrags: []int{1, 0}, leaves: fewLeaves, shared: true}
						f := g.frag(0)
						b, w, show = im.Fragment(f), ref.BuildQuery(f, dollar, nil), f.Show()
					}
					count := c.Bool()
					c.Desc(func() string { return fmt.Sprintf("count=%v %s of %s", count, styleName(dollar), show) })
					if w.Unspec {
						c.Skip()
					}
					d := &fakeDB{cols: 1, rows: [][]driver.Value{{int64(3)}}, nextAt: -1, numInput: -1}
					d.with(c, false, func(q *caller) {
						var err error
						var n int64
						if count {
							n, err = util.CountBuilder(q, b, ref.Style(dollar))
						} else {
							var ns []int64
							ns, err = util.ScanBuilder(q, b, ref.Style(dollar), func() (int64, []any) { n++; return n, []any{new(int)} })
							if err == nil && len(ns) != 1 {
								c.Failf("%d rows", len(ns))
							}
							n *= 3
						}
						if w.Err != nil {
							if err == nil || n != 0 || len(q.calls)+len(d.queries) > 0 {
								c.Failf("building fails with %v, but error %v, result %d, calls %v", w.Err, err, n, q.calls)
							}
							c.Class("error")
							return
						}
						if err != nil || n != 3 {
							c.Failf("error %v, result %d", err, n)
						}
						if len(d.queries) != 1 || len(q.calls) != 1 {
							c.Failf("%d queries", len(d.queries))
						}
						got := d.queries[0]
						if count {
							got = unwrap(c, got)
						}
						if got != w.Query || !SameValues(d.args[0], w.Args) {
							c.Failf("%q %s is run, want %q %s", got, ref.ShowValues(d.args[0]), w.Query, ref.ShowValues(w.Args))
						}
						c.Class("ok")
						c.State(got)
					})
				}},
			{Name: "strict-args", Rule: "args which database/sql does not take: an error, nothing reaches the database",
				Body: func(c *ex.C) {
					arg := ex.Pick[any](c, struct{}{}, []int{1}, map[string]int{}, complex(1, 1), func() {}, valuerErr{}, panicStr{})
					pos := c.N(2)
					args := []any{1, 2}
					args[pos] = arg
					count := c.Bool()
					prep := c.Bool()
					c.Desc(func() string { return fmt.Sprintf("%T, count=%v", arg, count) })
					d := &fakeDB{cols: 1, nextAt: -1, strict: true, prepare: prep, numInput: 2}
					d.with(c, false, func(q *caller) {
						var err error
						if count {
							var n int64
							n, err = util.Count(q, "q ? ?", args)
							if n != 0 {
								c.Failf("count %d", n)
							}
						} else {
							_, err = util.Scan(q, "q ? ?", args, func() (int, []any) { return 0, nil })
						}
						if err == nil || len(d.queries) > 0 {
							c.Failf("error %v, queries %v", err, d.queries)
						}
						if _, ok := arg.(valuerErr); ok && !errors.Is(err, errBoom) {
							c.Failf("error %v does not match the one of the value", err)
						}
						c.State(fmt.Sprintf("%T %v", arg, count))
					})
				}},
		}
	}})
}

// scriptedBuilder is a query builder of the user.
type scriptedBuilder struct {
	query string
	args  []any
	err   error
	keep  bool // returns a query in spite of the error
	style syntax.BindVarStyle
	n     int
}

func (b *scriptedBuilder) BuildQuery(style syntax.BindVarStyle) (string, []any, error) {
	b.n++
	b.style = style
	if b.err != nil && !b.keep {
		return "", nil, b.err
	}
	return b.query, b.args, b.err
}

var _ sqlf.QueryBuilder = (*scriptedBuilder)(nil)
var _ sqlf.QueryBuilder = (*sqlb.QueryBuilder)(nil)

var countRe = regexp.MustCompile(`(?is)^\s*SELECT\s+COUNT\s*\(\s*(?:1|\*)\s*\)\s+FROM\s+\((.*)\)\s*(?:AS\s+)?[a-z_]+\s*$`)

// unwrap returns the query counted.
func unwrap(c *ex.C, q string) string {
	m := countRe.FindStringSubmatch(q)
	if m == nil {
		c.Failf("%q is run, want SELECT COUNT(1) FROM (...) list", q)
	}
	return m[1]
}

func countCase(c *ex.C, builder bool) {
	query := ex.Pick(c, "SELECT 1", "SELECT * FROM foo WHERE a = ? AND b = ?", "SELECT $2, $1", "a ? b", "", "100%d %s %w %!", "broken $0 #", "#f1", "it's ' open", "(((", "SELECT COUNT(1) FROM (x) list", "a\nb -- c", "é\x00\xff", "? $1", "WITH a AS (SELECT 1) SELECT * FROM a", "??")
	args := ex.Pick(c, nil, []any{1, "a"}, []any{[]int{1}, struct{}{}}, []any{nil}, []any{valuerErr{}, 2, 3}, []any{panicStr{}}, []any{1, panicStr{}})
	tx, prep := c.Bool(), c.Bool()
	d := &fakeDB{cols: 1, nextAt: -1, prepare: prep, numInput: -1}
	want := int64(0)
	wantErr := false
	which := 0
	k := c.N(16)
	switch k {
	case 0, 1, 2, 3:
		want = []int64{0, 7, -1, 1<<63 - 1}[k]
		d.rows = [][]driver.Value{{want}}
	case 4:
		d.rows = [][]driver.Value{{"12"}}
		want = 12
	case 5:
		d.rows = [][]driver.Value{{[]byte("13")}, {int64(99)}}
		want = 13
	case 6: // no row
	case 7:
		d.rows = [][]driver.Value{{nil}}
		wantErr = true
	case 8:
		d.rows = [][]driver.Value{{"x"}}
		wantErr = true
	case 9:
		d.cols = 2
		d.rows = [][]driver.Value{{int64(1), int64(2)}}
		wantErr = true
	case 10:
		d.cols = 0
		d.rows = [][]driver.Value{{}}
		wantErr = true
	case 11:
		d.nextAt = 0
		wantErr, which = true, 1
	case 12:
		d.fault = "connect"
		if tx {
			c.Skip()
		}
		wantErr, which = true, 1
	case 13:
		d.fault = "query"
		if prep {
			d.fault = "stmt"
		}
		wantErr, which = true, 1
	case 14:
		if !prep {
			c.Skip()
		}
		d.fault = "prepare"
		wantErr, which = true, 1
	case 15:
		if !prep {
			c.Skip()
		}
		d.numInput = len(args) + 1
		wantErr = true
	}
	d.err = &dbFault{fmt.Sprint("case ", k)}
	if which == 1 {
		// errors of drivers come in all kinds
		d.err = ex.Pick[error](c, d.err, fmt.Errorf("wrapped: %w", d.err), errors.Join(errBoom, d.err), io.ErrUnexpectedEOF, sql.ErrTxDone, context.Canceled)
	}
	style := syntax.Dollar
	var b *scriptedBuilder
	if builder {
		style = ex.Pick(c, syntax.Dollar, syntax.Question)
		b = &scriptedBuilder{query: query, args: args}
		if k == 0 && c.Bool() {
			b.err = errBoom
			b.keep = c.Bool()
			c.Desc(func() string { return fmt.Sprintf("failing builder with %q", query) })
			d.with(c, tx, func(q *caller) {
				n, err := util.CountBuilder(q, b, style)
				if n != 0 || !errors.Is(err, errBoom) || len(q.calls)+len(d.queries) > 0 || b.n != 1 {
					c.Failf("returned %d, %v after queries %v and %d builds", n, err, d.queries, b.n)
				}
			})
			c.State("build fails")
			return
		}
	}
	c.Desc(func() string {
		return fmt.Sprintf("count of %q with %d args, case %d, prepared=%v, tx=%v, builder=%v", query, len(args), k, prep, tx, builder)
	})
	keep := append([]any{}, args...)
	d.with(c, tx, func(q *caller) {
		var n int64
		var err error
		if builder {
			n, err = util.CountBuilder(q, b, style)
			if b.n != 1 || b.style != style {
				c.Failf("built %d times, in style %v, want once in %v", b.n, b.style, style)
			}
		} else {
			n, err = util.Count(q, query, args)
		}
		if !SameValues(keep, args) {
			c.Failf("the args are changed to %s", ref.ShowValues(args))
		}
		if len(q.calls) != 1 {
			c.Failf("calls of the database: %v", q.calls)
		}
		if wantErr {
			if err == nil || n != 0 {
				c.Failf("returned %d, %v, want an error", n, err)
			}
			if which == 1 && !errors.Is(err, d.err) {
				c.Failf("the error %v does not match %v", err, d.err)
			}
			c.Class("error")
		} else {
			if err != nil || n != want {
				c.Failf("returned %d, %v, want %d", n, err, want)
			}
			c.Class("ok")
		}
		c.State(fmt.Sprint(k, n, err != nil, query))
	})
	if len(d.queries) > 1 {
		c.Failf("the query is run %d times", len(d.queries))
	}
	if len(d.queries) == 1 {
		if got := unwrap(c, d.queries[0]); got != query || !SameValues(d.args[0], args) {
			c.Failf("%q %s is run, want %q %s in a count", got, ref.ShowValues(d.args[0]), query, ref.ShowValues(args))
		}
	}
}
