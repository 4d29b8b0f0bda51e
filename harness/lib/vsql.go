package vlib

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"io"
)

// SQL is a stand-in database/sql driver: Query answers each query of the code under test.
// It returns the columns, the rows, the error of the query and the error with which
// iterating over the rows ends (io.EOF or nil: none). Exec answers statements.
type SQL struct {
	Query func(query string, args []any) (cols []string, rows [][]any, err, iterErr error)
	Exec  func(query string, args []any) (affected int64, err error)
}

func (s *SQL) Open() *sql.DB                                { return sql.OpenDB(s) }
func (s *SQL) Connect(context.Context) (driver.Conn, error) { return sqlConn{s}, nil }
func (s *SQL) Driver() driver.Driver                        { return sqlDriver{s} }

type sqlDriver struct{ s *SQL }

func (d sqlDriver) Open(string) (driver.Conn, error) { return sqlConn{d.s}, nil }

type sqlConn struct{ s *SQL }

func (c sqlConn) Prepare(q string) (driver.Stmt, error) { return sqlStmt{c.s, q}, nil }
func (c sqlConn) Close() error                          { return nil }
func (c sqlConn) Begin() (driver.Tx, error)             { return sqlTx{}, nil }

type sqlTx struct{}

func (sqlTx) Commit() error   { return nil }
func (sqlTx) Rollback() error { return nil }

type sqlStmt struct {
	s *SQL
	q string
}

func (s sqlStmt) Close() error  { return nil }
func (s sqlStmt) NumInput() int { return -1 }

func vals(args []driver.Value) []any {
	r := make([]any, len(args))
	for i, a := range args {
		if b, ok := a.([]byte); ok {
			a = append([]byte(nil), b...)
		}
		r[i] = a
	}
	return r
}

func (s sqlStmt) Exec(args []driver.Value) (driver.Result, error) {
	n, err := s.s.Exec(s.q, vals(args))
	if err != nil {
		return nil, err
	}
	return driver.RowsAffected(n), nil
}

func (s sqlStmt) Query(args []driver.Value) (driver.Rows, error) {
	c, r, err, iterErr := s.s.Query(s.q, vals(args))
	if err != nil {
		return nil, err
	}
	if iterErr == nil {
		iterErr = io.EOF
	}
	return &sqlRows{c, r, iterErr}, nil
}

type sqlRows struct {
	c   []string
	r   [][]any
	err error
}

func (r *sqlRows) Columns() []string { return r.c }
func (r *sqlRows) Close() error      { return nil }
func (r *sqlRows) Next(dest []driver.Value) error {
	if len(r.r) == 0 {
		return r.err
	}
	for i, v := range r.r[0] {
		dest[i] = v
	}
	r.r = r.r[1:]
	return nil
}
