package suites

import (
	"context"
	"database/sql"
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"time"

	bolt "github.com/johnnadratowski/golang-neo4j-bolt-driver"
	"github.com/johnnadratowski/golang-neo4j-bolt-driver/encoding"

	"vf/boltsrv"
	"vf/h"
	"vf/ref"
)

func init() {
	register(Suite{Name: "sql.values", Props: []string{"C21", "C01"}, Run: sqlValues})
	register(Suite{Name: "sql.model", Props: []string{"C21", "C13", "C10", "C26", "C14", "C08"}, Run: sqlModel})
	register(Suite{Name: "sql.fault", Props: []string{"C12", "C11", "C21", "C26"}, Run: sqlFault})
}

func isComposite(v interface{}) bool {
	switch v.(type) {
	case []interface{}, map[string]interface{}, ref.Struct:
		return true
	}
	return false
}

// checkSQLRow compares scanned values with what the server sent.
func checkSQLRow(got []interface{}, want []interface{}) string {
	if len(got) != len(want) {
		return fmt.Sprintf("%d columns instead of %d", len(got), len(want))
	}
	for i, w := range want {
		g := got[i]
		exp, _ := ref.Expect(w)
		if isComposite(w) {
			b, ok := g.([]byte)
			if !ok {
				return fmt.Sprintf("column %d: %T instead of bytes for %s", i, g, ref.Short(w))
			}
			v, err := encoding.Unmarshal(b)
			if err != nil {
				return fmt.Sprintf("column %d: does not unmarshal: %s", i, firstLine(err))
			}
			g = v
		}
		if eq, why := ref.Equal(exp, g); !eq {
			return fmt.Sprintf("column %d: %s, sent %s %s", i, ref.Short(g), ref.Short(exp), why)
		}
	}
	return ""
}

func scanAll(rows *sql.Rows) (out [][]interface{}, cols []string, err error) {
	cols, err = rows.Columns()
	if err != nil {
		return
	}
	for rows.Next() {
		vals := make([]interface{}, len(cols))
		ptrs := make([]interface{}, len(cols))
		for i := range vals {
			ptrs[i] = &vals[i]
		}
		if err = rows.Scan(ptrs...); err != nil {
			return
		}
		for i := range vals { // scanned bytes belong to the driver until the next row
			if b, ok := vals[i].([]byte); ok {
				vals[i] = append([]byte(nil), b...)
			}
		}
		out = append(out, vals)
	}
	return out, cols, rows.Err()
}

func sqlValues(c *h.Ctx) {
	const suite = "sql.values"
	c.Rule(suite, "statements through database/sql (query, exec, prepared, in a transaction) with zero to four marshalled parameter maps and random result rows of scalars, lists, maps, nodes, relationships and paths; the server must receive the merged map, scalars must scan to their values and the bytes of composite values must unmarshal to what was sent; arguments that are not marshalled maps must be refused without transmitting. Distinct by statement parameters and rows")
	n := c.Pick(20000, 300000)
	const per = 25
	c.Each(suite, (n+per-1)/per, func(w, i int, name string) {
		r := c.Rand(suite, i)
		srv := boltsrv.New()
		var mu sync.Mutex
		scripts := map[string]*boltsrv.Script{}
		srv.Handler = func(s *boltsrv.Session, q string, p interface{}) *boltsrv.Script {
			mu.Lock()
			defer mu.Unlock()
			return scripts[q]
		}
		srv.Frag = r.Intn(2)
		srv.Chunk = []int{0, 0, 20, 300}[r.Intn(4)]
		srv.Wide = r.Intn(3) == 0
		srv.Start()
		defer srv.Close()
		db, err := sql.Open("neo4j-bolt", srv.URL())
		if err != nil {
			viol(c, suite, name, []string{"C21"}, "sql.Open: "+firstLine(err))
			return
		}
		defer db.Close()
		db.SetMaxOpenConns(1)
		for k := 0; k < per && !c.Full(suite); k++ {
			g := &ref.Gen{R: r, Budget: 14, Graph: true}
			q := fmt.Sprintf("S%d.%d %s", i, k, g.String(r.Intn(30)))
			sc := &boltsrv.Script{}
			cols := 1 + r.Intn(5)
			fields := []interface{}{}
			for j := 0; j < cols; j++ {
				fields = append(fields, []string{fmt.Sprintf("c%d", j), fmt.Sprintf("c%d", j), fmt.Sprintf("c%d", j), "n", "n.name", "", " ", "count(*)", "N", "ñ"}[r.Intn(10)])
			}
			sc.RunMeta = ref.Map{"fields": fields}
			for j := r.Intn(4); j >= 0; j-- {
				row := []interface{}{}
				for l := 0; l < cols; l++ {
					gg := &ref.Gen{R: r, Budget: 10, Graph: true}
					if r.Intn(60) == 0 {
						gg.Budget = 300
					}
					row = append(row, gg.WireValue(3))
				}
				sc.Rows = append(sc.Rows, row)
			}
			sc.PullMeta = ref.Map{"stats": ref.Map{"nodes-created": int64(k), "relationships-deleted": int64(i)}}
			mu.Lock()
			scripts[q] = sc
			mu.Unlock()
			// parameters
			want := map[string]interface{}{}
			var args []interface{}
			bad := r.Intn(8) == 0
			for j := r.Intn(5); j > 0; j-- {
				m := (&ref.Gen{R: r, Budget: 12}).Props(3)
				if m == nil {
					m = map[string]interface{}{}
				}
				if r.Intn(2) == 0 && len(args) > 0 {
					m["common"] = int64(j) // later maps win
				} else if r.Intn(2) == 0 {
					m["common"] = "first"
				}
				b, err := encoding.Marshal(m)
				if err != nil {
					viol(c, suite, name, []string{"C21", "C01"}, "Marshal of a parameter map: "+firstLine(err))
					return
				}
				wm, werr := ref.Wire(m)
				if werr != nil {
					continue
				}
				for kk, v := range wm.(map[string]interface{}) {
					want[kk] = v
				}
				args = append(args, b)
			}
			if bad {
				var a interface{}
				switch r.Intn(11) {
				case 8: // the right bytes, but of another type
					b, _ := encoding.Marshal(map[string]interface{}{"a": "some text"})
					a = string(b)
				case 9:
					a = []interface{}{true, 1.5, time.Unix(1, 0)}[r.Intn(3)]
				case 10:
					a, _ = encoding.Marshal([]interface{}{nil, int64(1), 1.5, true}[r.Intn(4)])
				case 0:
					a = int64(7)
				case 1:
					a = "text"
				case 2:
					a, _ = encoding.Marshal([]interface{}{int64(1)})
				case 3:
					a, _ = encoding.Marshal("text")
				case 4:
					a = []byte{0xA1, 0x81, 'k', 1} // a map, but not framed
				case 5:
					a = []byte{}
				case 6:
					a = nil
				case 7:
					b, _ := encoding.Marshal(map[string]interface{}{"a": "some text"})
					a = b[:len(b)-3]
				}
				at := r.Intn(len(args) + 1)
				args = append(args[:at:at], append([]interface{}{a}, args[at:]...)...)
			}
			kind := r.Intn(5)
			var got [][]interface{}
			var gcols []string
			var res sql.Result
			o := h.Guard(hangTicks, srv.Activity, func() {
				for _, s := range srv.Sessions() {
					s.Kill(boltsrv.RST)
				}
			}, func() {
				var rows *sql.Rows
				switch kind {
				case 0, 1:
					if rows, err = db.Query(q, args...); err == nil {
						got, gcols, err = scanAll(rows)
						rows.Close()
					}
				case 2:
					res, err = db.Exec(q, args...)
				case 3:
					var st *sql.Stmt
					if st, err = db.Prepare(q); err == nil {
						if r.Intn(3) == 0 {
							res, err = st.Exec(args...)
						} else if rows, err = st.Query(args...); err == nil {
							got, gcols, err = scanAll(rows)
							rows.Close()
						}
						st.Close()
					}
				case 4:
					var tx *sql.Tx
					if tx, err = db.Begin(); err == nil {
						if rows, err = tx.Query(q, args...); err == nil {
							got, gcols, err = scanAll(rows)
							rows.Close()
						}
						if e := tx.Commit(); err == nil {
							err = e
						}
					}
				}
			})
			if o.Bad() {
				viol(c, suite, name, []string{"C21"}, fmt.Sprintf("%q via database/sql (%d): %s", shortStr(q), kind, o.String()))
				return
			}
			run, _, _, cnt := srv.Find(q)
			c.Eval(fmt.Sprint(kind, bad, ref.Short(want), len(sc.Rows), q))
			if bad {
				if err == nil {
					viol(c, suite, name, []string{"C21"}, fmt.Sprintf("arguments that are not marshalled maps were accepted: %s", ref.Short(args)))
					return
				}
				if cnt != 0 {
					viol(c, suite, name, []string{"C21"}, "a statement with refused arguments was transmitted")
					return
				}
				c.Count("sql.refused", 1)
				continue
			}
			if err != nil {
				viol(c, suite, name, []string{"C21"}, fmt.Sprintf("%q via database/sql (%d) with rows %s: %s", shortStr(q), kind, ref.Short(rowsVal(sc.Rows)), firstLine(err)))
				return
			}
			if cnt != 1 {
				viol(c, suite, name, []string{"C21"}, fmt.Sprintf("the statement was transmitted %d times", cnt))
				return
			}
			if eq, why := ref.Equal(want, run.Params); !eq {
				viol(c, suite, name, []string{"C21"}, fmt.Sprintf("the server received parameters %s, passed were %s: %s", ref.Short(run.Params), ref.Short(want), why))
				return
			}
			c.Count("sql.params_checked", 1)
			if res != nil {
				n, err := res.RowsAffected()
				if err != nil || n != int64(k)+int64(i) {
					viol(c, suite, name, []string{"C21"}, fmt.Sprintf("RowsAffected is %d, %v instead of %d", n, err, k+i))
					return
				}
				continue
			}
			if len(got) != len(sc.Rows) || len(gcols) != cols {
				viol(c, suite, name, []string{"C21"}, fmt.Sprintf("%d rows of %d columns instead of %d of %d", len(got), len(gcols), len(sc.Rows), cols))
				return
			}
			for j := range gcols {
				if gcols[j] != fields[j] {
					viol(c, suite, name, []string{"C21"}, fmt.Sprintf("columns %v instead of %v", gcols, fields))
					return
				}
			}
			for j := range got {
				if why := checkSQLRow(got[j], sc.Rows[j]); why != "" {
					viol(c, suite, name, []string{"C21", "C01"}, fmt.Sprintf("row %d: %s", j, why))
					return
				}
				c.Count("sql.rows_checked", 1)
			}
		}
		for _, b := range srv.Breaches() {
			viol(c, suite, name, []string{"C21", "C09"}, "protocol breach: "+b.Kind+" "+b.What)
		}
	})
}

// sql.model ---------------------------------------------------------------------

type sqlHist struct {
	c      *h.Ctx
	name   string
	r      *rand.Rand
	srv    *boltsrv.Server
	db     *sql.DB
	mu     sync.Mutex
	sc     map[string]*boltsrv.Script
	nq     int
	trace  []string
	what   string
	effect map[string]int // 0 must not, 1 must, 2 may
	runs   map[string]int
	maxRun map[string]int
	free   int // connections not held by open rows or transactions
	rows   []*openRows
	txs    []*openTx
	stmts  []*openStmt
}

type openRows struct {
	rows *sql.Rows
	q    string
	pos  int
	tx   *openTx
	stmt bool // of a statement that may run again
}

type openTx struct {
	tx     *sql.Tx
	qs     []string
	failed bool
	busy   *openRows
	stmts  []*sql.Stmt
	texts  []string
}

type openStmt struct {
	st *sql.Stmt
	q  string
}

func (x *sqlHist) fail(f string, a ...interface{}) {
	if x.what == "" {
		x.what = fmt.Sprintf(f, a...)
	}
}

func (x *sqlHist) script(fails bool) string {
	x.nq++
	q := fmt.Sprintf("Q%d %s", x.nq, x.name)
	sc := &boltsrv.Script{RunMeta: ref.Map{"fields": []interface{}{"a", "b"}}, PullMeta: ref.Map{"stats": ref.Map{"nodes-created": int64(x.nq), "properties-set": int64(9)}}, Effect: q}
	for i := x.r.Intn(5); i > 0; i-- {
		sc.Rows = append(sc.Rows, []interface{}{q, int64(len(sc.Rows))})
	}
	if fails {
		m := failMeta(q)
		if x.r.Intn(2) == 0 {
			sc.FailRun = m
		} else {
			sc.FailPull, sc.FailPullAt = m, x.r.Intn(len(sc.Rows)+1)
		}
	}
	x.mu.Lock()
	x.sc[q] = sc
	x.mu.Unlock()
	return q
}

func (x *sqlHist) do(what string, fn func()) bool {
	if x.what != "" {
		return false
	}
	x.trace = append(x.trace, what)
	o := h.Guard(hangTicks, x.srv.Activity, func() {
		for _, s := range x.srv.Sessions() {
			s.Kill(boltsrv.RST)
		}
	}, fn)
	x.c.Count("sql.calls", 1)
	if o.Bad() {
		x.fail("%s: %s", what, o.String())
		return false
	}
	return true
}

func (x *sqlHist) wantFail(what string, err error, q string) {
	m, ok := failureMeta(err)
	if err == nil || !ok || m["message"] != q {
		x.fail("%s: error is %v, the server's failure was for %q", what, err, q)
	}
}

// readOne takes a row of open rows; it returns false when they ended.
func (x *sqlHist) readOne(or *openRows, inFailed bool) bool {
	sc := x.sc[or.q]
	var ok bool
	var a string
	var b int64
	var err error
	if !x.do("rows.Next of "+or.q, func() {
		ok = or.rows.Next()
		if ok {
			err = or.rows.Scan(&a, &b)
		} else {
			err = or.rows.Err()
		}
	}) {
		return false
	}
	n := len(sc.Rows)
	if sc.FailPull != nil {
		n = sc.FailPullAt
	}
	if or.pos < n {
		if !ok || err != nil || a != or.q || b != int64(or.pos) {
			x.fail("row %d of %q: ok=%v %q %d %v", or.pos, or.q, ok, a, b, err)
		}
		or.pos++
		return true
	}
	if ok {
		x.fail("%q gave more than its %d rows", or.q, n)
	} else if sc.FailPull != nil {
		x.wantFail("end of "+or.q, err, or.q)
	} else if err != nil {
		x.fail("%q ended with %s", or.q, firstLine(err))
	}
	return false
}

func (x *sqlHist) closeRows(i int) {
	or := x.rows[i]
	x.rows = append(x.rows[:i], x.rows[i+1:]...)
	x.do("rows.Close of "+or.q, func() { or.rows.Close() })
	sc := x.sc[or.q]
	if or.stmt {
		if sc.FailPull != nil && or.tx != nil {
			or.tx.failed = true
		}
	} else if sc.FailPull != nil {
		x.effect[or.q] = 0
		if or.tx != nil {
			or.tx.failed = true
		}
	} else if or.tx == nil {
		x.effect[or.q] = 1
	}
	if or.tx != nil {
		or.tx.busy = nil
	} else {
		x.free++
	}
}

func (x *sqlHist) step() {
	r := x.r
	fails := r.Intn(5) == 0
	switch k := r.Intn(14); {
	case k < 2: // exec
		if x.free == 0 {
			return
		}
		q := x.script(fails)
		sc := x.sc[q]
		var res sql.Result
		var err error
		if !x.do("db.Exec "+q, func() { res, err = x.db.Exec(q) }) {
			return
		}
		x.maxRun[q] = 1
		if fails {
			x.wantFail("db.Exec", err, q)
			x.effect[q] = 0
			return
		}
		if err != nil {
			x.fail("db.Exec %q: %s", q, firstLine(err))
			return
		}
		if n, err := res.RowsAffected(); err != nil || n != int64(x.nq) {
			x.fail("RowsAffected of %q is %d, %v instead of %d", q, n, err, x.nq)
		}
		_ = sc
		x.effect[q] = 1
	case k < 4: // query left open
		if x.free == 0 {
			return
		}
		q := x.script(fails)
		var rows *sql.Rows
		var err error
		if !x.do("db.Query "+q, func() { rows, err = x.db.Query(q) }) {
			return
		}
		x.maxRun[q] = 1
		if x.sc[q].FailRun != nil {
			x.wantFail("db.Query", err, q)
			x.effect[q] = 0
			return
		}
		if err != nil {
			x.fail("db.Query %q: %s", q, firstLine(err))
			return
		}
		x.free--
		x.rows = append(x.rows, &openRows{rows: rows, q: q})
	case k < 7:
		if len(x.rows) == 0 {
			return
		}
		i := r.Intn(len(x.rows))
		if !x.readOne(x.rows[i], false) {
			if x.what == "" {
				x.closeRows(i) // database/sql has closed them already
			}
		} else if r.Intn(4) == 0 {
			x.closeRows(i)
		}
	case k < 8: // query row
		if x.free == 0 {
			return
		}
		q := x.script(false)
		var a string
		var b int64
		var err error
		if !x.do("db.QueryRow "+q, func() { err = x.db.QueryRow(q).Scan(&a, &b) }) {
			return
		}
		x.maxRun[q] = 1
		x.effect[q] = 1
		if len(x.sc[q].Rows) == 0 {
			if err != sql.ErrNoRows {
				x.fail("QueryRow without rows gave %v", err)
			}
		} else if err != nil || a != q || b != 0 {
			x.fail("QueryRow of %q gave %q %d %v", q, a, b, err)
		}
	case k < 9: // begin
		if x.free == 0 {
			return
		}
		var tx *sql.Tx
		var err error
		if !x.do("db.Begin", func() { tx, err = x.db.Begin() }) {
			return
		}
		if err != nil {
			x.fail("db.Begin: %s", firstLine(err))
			return
		}
		x.free--
		x.txs = append(x.txs, &openTx{tx: tx})
	case k < 11: // work in a transaction
		if len(x.txs) == 0 {
			return
		}
		t := x.txs[r.Intn(len(x.txs))]
		if t.busy != nil {
			return
		}
		f := r.Intn(9) == 0
		q := x.script(f)
		x.maxRun[q] = 1
		x.effect[q] = 2
		var err error
		if r.Intn(3) == 0 && !t.failed { // leave rows open
			var rows *sql.Rows
			if !x.do("tx.Query "+q, func() { rows, err = t.tx.Query(q) }) {
				return
			}
			if x.sc[q].FailRun != nil {
				x.wantFail("tx.Query", err, q)
				t.failed = true
				return
			}
			if err != nil {
				x.fail("tx.Query %q: %s", q, firstLine(err))
				return
			}
			or := &openRows{rows: rows, q: q, tx: t}
			t.busy = or
			t.qs = append(t.qs, q)
			x.rows = append(x.rows, or)
			return
		}
		if r.Intn(4) == 0 && !t.failed { // prepared and run again and again
			var st *sql.Stmt
			if len(x.stmts) > 0 && r.Intn(2) == 0 {
				s := x.stmts[r.Intn(len(x.stmts))]
				q = s.q
				if !x.do("tx.Stmt "+q, func() { st = t.tx.Stmt(s.st) }) {
					return
				}
			} else {
				x.maxRun[q] = 2 // not judged by effects
				if !x.do("tx.Prepare "+q, func() { st, err = t.tx.Prepare(q) }) {
					return
				}
				if err != nil {
					x.fail("tx.Prepare %q: %s", q, firstLine(err))
					return
				}
			}
			for k := 1 + r.Intn(3); k > 0 && x.what == "" && !t.failed && t.busy == nil; k-- {
				x.runStmt(st, q, t)
			}
			t.stmts = append(t.stmts, st)
			return
		}
		if r.Intn(3) == 0 { // prepared in the transaction, kept open
			var st *sql.Stmt
			if !x.do("tx.Prepare "+q, func() {
				if st, err = t.tx.Prepare(q); err == nil {
					_, err = st.Exec()
				}
			}) {
				return
			}
			if st != nil {
				t.stmts = append(t.stmts, st)
			}
		} else if !x.do("tx.Exec "+q, func() { _, err = t.tx.Exec(q) }) {
			return
		}
		if t.failed {
			if err == nil {
				x.fail("work in a failed transaction succeeded")
			}
			x.effect[q] = 0
			return
		}
		if f {
			x.wantFail("tx.Exec", err, q)
			x.effect[q] = 0
			t.failed = true
			return
		}
		if err != nil {
			x.fail("tx work %q: %s", q, firstLine(err))
			return
		}
		t.qs = append(t.qs, q)
	case k < 12: // end a transaction
		if len(x.txs) == 0 {
			return
		}
		i := r.Intn(len(x.txs))
		t := x.txs[i]
		if t.busy != nil {
			// database/sql ends the rows itself
			for j, or := range x.rows {
				if or == t.busy {
					x.closeRows(j)
					break
				}
			}
		}
		if x.what != "" {
			return
		}
		x.txs = append(x.txs[:i], x.txs[i+1:]...)
		x.free++
		commit := r.Intn(2) == 0
		var err error
		what := "tx.Rollback"
		if commit {
			what = "tx.Commit"
		}
		if !x.do(what, func() {
			if commit {
				err = t.tx.Commit()
			} else {
				err = t.tx.Rollback()
			}
		}) {
			return
		}
		if t.failed && commit {
			if err == nil {
				x.fail("committing a failed transaction succeeded")
			}
		} else if err != nil {
			x.fail("%s: %s", what, firstLine(err))
		}
		for _, q := range t.qs {
			if x.effect[q] == 2 {
				x.effect[q] = 0
				if commit && !t.failed {
					x.effect[q] = 1
				}
			}
		}
		if x.do("finished transaction", func() { err = t.tx.Commit() }) && err == nil {
			x.fail("a finished transaction was committed again")
		}
	case k < 13: // prepared statement, kept
		if x.free == 0 {
			return
		}
		if len(x.stmts) < 3 && r.Intn(2) == 0 {
			q := x.script(r.Intn(3) == 0)
			var st *sql.Stmt
			var err error
			if !x.do("db.Prepare "+q, func() { st, err = x.db.Prepare(q) }) {
				return
			}
			if err != nil {
				x.fail("db.Prepare: %s", firstLine(err))
				return
			}
			x.effect[q] = 2
			x.stmts = append(x.stmts, &openStmt{st, q})
			return
		}
		if len(x.stmts) == 0 {
			return
		}
		i := r.Intn(len(x.stmts))
		s := x.stmts[i]
		if r.Intn(4) == 0 {
			x.stmts = append(x.stmts[:i], x.stmts[i+1:]...)
			x.do("stmt.Close", func() { s.st.Close() })
			return
		}
		x.runStmt(s.st, s.q, nil)
	default: // a connection of one's own, ping
		if x.free == 0 {
			return
		}
		q := x.script(false)
		x.maxRun[q] = 1
		x.effect[q] = 1
		var err error
		if x.do("db.Conn "+q, func() {
			var cn *sql.Conn
			if cn, err = x.db.Conn(context.Background()); err == nil {
				_, err = cn.ExecContext(context.Background(), q)
				cn.Close()
			}
		}) && err != nil {
			x.fail("db.Conn exec: %s", firstLine(err))
		}
	}
}

// runStmt runs a prepared statement once, in one of the ways there are.
func (x *sqlHist) runStmt(st *sql.Stmt, q string, t *openTx) {
	r := x.r
	x.maxRun[q] += 2 // may run again, so not judged by its effects
	sc := x.sc[q]
	var err error
	failed := func(what string) bool {
		if t != nil {
			t.failed = true
		}
		x.wantFail(what, err, q)
		return true
	}
	if r.Intn(2) == 0 {
		if !x.do("stmt.Exec "+q, func() { _, err = st.Exec() }) {
			return
		}
		if sc.FailRun != nil || sc.FailPull != nil {
			failed("stmt.Exec")
		} else if err != nil {
			x.fail("stmt.Exec %q: %s", q, firstLine(err))
		}
		return
	}
	var rows *sql.Rows
	if !x.do("stmt.Query "+q, func() { rows, err = st.Query() }) {
		return
	}
	if sc.FailRun != nil {
		failed("stmt.Query")
		return
	}
	if err != nil {
		x.fail("stmt.Query %q: %s", q, firstLine(err))
		return
	}
	or := &openRows{rows: rows, q: q, stmt: true, tx: t}
	x.rows = append(x.rows, or)
	if t != nil {
		t.busy = or
	} else {
		x.free--
	}
	at := len(x.rows) - 1
	switch r.Intn(4) {
	case 0: // left open
		return
	case 1: // closed unread
	case 2:
		if !x.readOne(or, false) && x.what != "" {
			return
		}
	default:
		for x.readOne(or, false) {
		}
	}
	if x.what == "" {
		x.closeRows(at)
	}
}

func sqlModel(c *h.Ctx) {
	const suite = "sql.model"
	c.Rule(suite, "random histories of database/sql operations on a handle with 1-4 connections: exec, queries left open and read step by step, single rows, transactions with open rows and prepared statements, statements kept prepared and run repeatedly, failing statements; results, errors and committed effects are compared with a model. Distinct by trace")
	n := c.Pick(6000, 100000)
	c.Each(suite, n, func(w, i int, name string) {
		r := c.Rand(suite, i)
		x := &sqlHist{c: c, name: name, r: r, srv: boltsrv.New(), sc: map[string]*boltsrv.Script{}, effect: map[string]int{}, maxRun: map[string]int{}}
		x.srv.Handler = func(s *boltsrv.Session, q string, p interface{}) *boltsrv.Script {
			x.mu.Lock()
			defer x.mu.Unlock()
			return x.sc[q]
		}
		x.srv.Frag = r.Intn(2)
		x.srv.Seed = int64(i)
		x.srv.Start()
		db, err := sql.Open("neo4j-bolt", x.srv.URL())
		if err != nil {
			viol(c, suite, name, []string{"C21"}, "sql.Open: "+firstLine(err))
			return
		}
		x.db = db
		x.free = 1 + r.Intn(4)
		max := x.free
		db.SetMaxOpenConns(max)
		db.SetMaxIdleConns(r.Intn(5))
		for k := 10 + r.Intn(50); k > 0 && x.what == ""; k-- {
			x.step()
		}
		for len(x.rows) > 0 && x.what == "" {
			x.closeRows(0)
		}
		for _, t := range x.txs { // never committed
			for _, q := range t.qs {
				x.effect[q] = 0
			}
			if r.Intn(2) == 0 {
				t.tx.Rollback()
			}
		}
		x.do("db.Close", func() { db.Close() })
		for _, t := range x.txs {
			t.tx.Rollback()
		}
		if x.what == "" && !settledLive(x.srv, 0) {
			viol(c, suite, name, []string{"C26", "C21"}, fmt.Sprintf("%d network connections are open after db.Close", x.srv.Live()), x.trace...)
		}
		if x.what == "" {
			count := map[string]int{}
			for _, e := range x.srv.Commits() {
				count[e]++
			}
			for q, want := range x.effect {
				if x.maxRun[q] != 1 {
					continue
				}
				if want != 2 && count[q] != want {
					x.fail("%q took effect %d times instead of %d", q, count[q], want)
				}
			}
			for _, b := range x.srv.Breaches() {
				x.fail("protocol breach: %s %s", b.Kind, b.What)
			}
			if p := x.srv.Peak(); p > int64(max)+1 {
				_ = p
			}
		}
		c.Eval(strings.Join(x.trace, ";"))
		c.SampleN(suite, 1, func() interface{} {
			return map[string]interface{}{"suite": suite, "case": name, "trace": x.trace}
		})
		if x.what != "" {
			viol(c, suite, name, []string{"C21", "C13", "C10", "C14", "C08"}, x.what, x.trace...)
		}
		x.srv.Close()
	})
}

// sql.fault ---------------------------------------------------------------------

type sqlFaultRun struct {
	c     *h.Ctx
	srv   *boltsrv.Server
	db    *sql.DB
	ops   []string
	errs  []error
	bad   string
	props []string

	failing bool // with operations that the server fails
}

func (x *sqlFaultRun) fail(props []string, f string, a ...interface{}) {
	if x.bad == "" {
		x.bad, x.props = fmt.Sprintf(f, a...), props
	}
}

func (x *sqlFaultRun) op(name string, fn func() error) {
	if x.bad != "" {
		return
	}
	var err error
	o := h.Guard(hangTicks, x.srv.Activity, func() {
		for _, s := range x.srv.Sessions() {
			s.Kill(boltsrv.RST)
		}
	}, func() { err = fn() })
	if o.Bad() {
		x.fail([]string{"C12", "C11", "C21"}, "%s: %s", name, o.String())
		return
	}
	x.ops = append(x.ops, name)
	x.errs = append(x.errs, err)
	if err != nil {
		time.Sleep(time.Millisecond)
	}
}

func sqlFaultScript(q string) *boltsrv.Script {
	sc := simpleScript(q, 3)
	switch {
	case strings.HasPrefix(q, "fr"):
		sc.FailRun = ref.Map{"code": "Neo.R", "message": q + " refused"}
	case strings.HasPrefix(q, "fp"):
		sc.FailPull, sc.FailPullAt = ref.Map{"code": "Neo.P", "message": q + " refused"}, 2
	}
	return sc
}

// expected: the failure that the server gives for q is no failure of the operation.
func (x *sqlFaultRun) expected(q string, err error) error {
	if m, ok := failureMeta(err); ok && m["message"] == q+" refused" {
		return nil
	}
	if err == nil {
		x.fail([]string{"C21", "C10"}, "%q succeeded although the server failed it", q)
	}
	return err
}

func (x *sqlFaultRun) query(db interface {
	Query(string, ...interface{}) (*sql.Rows, error)
}, q string, upto int) error {
	rows, err := db.Query(q)
	if err != nil {
		return err
	}
	defer rows.Close()
	n := 0
	for rows.Next() {
		var a string
		var b int64
		if err := rows.Scan(&a, &b); err != nil {
			return err
		}
		if a != q || b != int64(n) {
			x.fail([]string{"C12", "C21", "C11"}, "%q got row %q %d as row %d", q, a, b, n)
		}
		n++
		if n == upto {
			return rows.Close()
		}
	}
	if err := rows.Err(); err != nil {
		return err
	}
	if n != 3 {
		x.fail([]string{"C11", "C21"}, "%q was reported complete with %d of 3 rows", q, n)
	}
	return nil
}

func (x *sqlFaultRun) program() {
	db := x.db
	x.op("exec e1", func() error { _, err := db.Exec("e1"); return err })
	x.op("query q1", func() error { return x.query(db, "q1", 9) })
	x.op("tx t1", func() error {
		tx, err := db.Begin()
		if err != nil {
			return err
		}
		if _, err := tx.Exec("t1a"); err != nil {
			tx.Rollback()
			return err
		}
		if err := x.query(tx, "t1b", 2); err != nil {
			tx.Rollback()
			return err
		}
		return tx.Commit()
	})
	x.op("stmt p1", func() error {
		st, err := db.Prepare("p1")
		if err != nil {
			return err
		}
		defer st.Close()
		rows, err := st.Query()
		if err != nil {
			return err
		}
		n := 0
		for rows.Next() {
			n++
		}
		rows.Close()
		if err := rows.Err(); err != nil {
			return err
		}
		if n != 3 {
			x.fail([]string{"C11", "C21"}, "p1 was reported complete with %d of 3 rows", n)
		}
		return nil
	})
	x.op("query q2", func() error { return x.query(db, "q2", 1) })
	x.op("tx t2", func() error {
		tx, err := db.Begin()
		if err != nil {
			return err
		}
		if _, err := tx.Exec("t2a"); err != nil {
			tx.Rollback()
			return err
		}
		return tx.Rollback()
	})
	if x.failing {
		x.op("fail fr1", func() error { _, err := db.Exec("fr1"); return x.expected("fr1", err) })
		x.op("fail fp1", func() error { return x.expected("fp1", x.query(db, "fp1", 9)) })
		for i, upto := range []int{0, 1, 9} {
			q := fmt.Sprintf("fp%d", i+2)
			upto := upto
			x.op("fail "+q, func() error {
				st, err := db.Prepare(q)
				if err != nil {
					return err
				}
				defer st.Close()
				rows, err := st.Query()
				if err != nil {
					return err
				}
				for n := 0; n < upto && rows.Next(); n++ {
				}
				if err := rows.Close(); err != nil {
					return x.expected(q, err)
				}
				return x.expected(q, rows.Err())
			})
		}
	}
	x.op("exec e2", func() error { _, err := db.Exec("e2"); return err })
	x.op("query q3", func() error { return x.query(db, "q3", 9) })
	x.op("exec e3", func() error { _, err := db.Exec("e3"); return err })
}

func sqlFault(c *h.Ctx) {
	const suite = "sql.fault"
	c.Rule(suite, "a fixed program of nine database/sql operations (and five more that the server fails, with and without refusing ACK_FAILURE) runs on one connection that is closed, reset or silenced after every byte (silence: every N-th) of the server's output or input, or answers one request with garbage; at most the one operation in progress may fail, all others must succeed with their own results on a replacement connection, no statement may be transmitted twice, and effects must agree with what was reported. Distinct by (direction, action, offset)")
	type fcase struct {
		in     bool
		do     boltsrv.Action
		at     int64
		mangle int
		kind   string
		mode   int // 0 the server fails nothing, 1 fails some operations, 2 refuses ACK_FAILURE too
	}
	run := func(plan boltsrv.Plan, timeout string, mode int) *sqlFaultRun {
		srv := boltsrv.New()
		if mode == 2 {
			srv.AckFail = func(*boltsrv.Session) ref.Map { return ref.Map{"code": "Neo.Ack", "message": "not acknowledged"} }
		}
		srv.Handler = func(s *boltsrv.Session, q string, p interface{}) *boltsrv.Script { return sqlFaultScript(q) }
		srv.Plans = func(n int) boltsrv.Plan {
			if n == 0 {
				return plan
			}
			return boltsrv.NoFault()
		}
		srv.Start()
		x := &sqlFaultRun{c: c, srv: srv, failing: mode > 0}
		db, err := sql.Open("neo4j-bolt", srv.URL()+timeout)
		if err != nil {
			x.fail([]string{"C21"}, "sql.Open: %s", firstLine(err))
			return x
		}
		db.SetMaxOpenConns(1)
		x.db = db
		x.program()
		x.op("db.Close", func() error { db.Close(); return nil })
		if x.bad == "" && !settledLive(srv, 0) {
			x.fail([]string{"C26", "C12"}, "%d network connections are open after db.Close", srv.Live())
		}
		return x
	}
	var cases []fcase
	for mode := 0; mode <= 2; mode++ {
		// sizes of the clean run
		x := run(boltsrv.NoFault(), "", mode)
		x.srv.Close()
		for i, e := range x.errs {
			if e != nil {
				x.fail([]string{"C21", "C12"}, "without any fault %s: %s", x.ops[i], firstLine(e))
			}
		}
		if x.bad != "" {
			viol(c, suite, suite+"#clean", append(x.props, "C12", "C11"), x.bad)
			return
		}
		s0 := x.srv.Sessions()[0]
		bin, bout := s0.Bytes()
		step := int64(1)
		if mode > 0 {
			step = int64(c.Pick(5, 1))
		}
		for _, do := range []boltsrv.Action{boltsrv.FIN, boltsrv.RST, boltsrv.Half} {
			for at := int64(1); at < bout; at += step * int64(c.Pick(2, 1)) {
				cases = append(cases, fcase{do: do, at: at, mode: mode})
			}
			for at := int64(21); at < bin; at += step * int64(c.Pick(3, 1)) {
				cases = append(cases, fcase{do: do, at: at, in: true, mode: mode})
			}
		}
		for at := int64(45); at < bout; at += step * int64(c.Pick(29, 2)) {
			cases = append(cases, fcase{do: boltsrv.Stall, at: at, mode: mode})
		}
		for q, r := range s0.Requests() {
			if q == 0 {
				continue
			}
			for _, k := range mangleKinds {
				if k == "swap" && r.Kind != "ACK_FAILURE" && r.Kind != "RESET" || k == "ignored" {
					continue
				}
				cases = append(cases, fcase{mangle: q, kind: k, mode: mode})
			}
			if r.Kind == "RESET" {
				cases = append(cases, fcase{mangle: q, kind: "refused", mode: mode})
			}
		}
	}
	c.Count("sql.fault_points", int64(len(cases)))
	c.EachW(suite, len(cases), 48, func(w, i int, name string) {
		fc := cases[i]
		pl := boltsrv.NoFault()
		timeout, desc := "", ""
		switch {
		case fc.mangle > 0:
			desc = fmt.Sprintf("the response to request %d replaced (%s)", fc.mangle, fc.kind)
			pl.Mangle = func(r *boltsrv.Request, bodies [][]byte) [][]byte {
				if r.Seq != fc.mangle || len(bodies) == 0 {
					return bodies
				}
				return append(append([][]byte{}, mangled(fc.kind, bodies[0])...), bodies[1:]...)
			}
		default:
			pl.Do = fc.do
			if fc.in {
				pl.In = fc.at
			} else {
				pl.Out = fc.at
			}
			desc = fmt.Sprintf("%s after %d bytes of server output (input %v)", fc.do, fc.at, fc.in)
			if fc.do == boltsrv.Stall {
				timeout = "?timeout=1"
			}
		}
		desc = fmt.Sprintf("server failures %d, ", fc.mode) + desc
		x := run(pl, timeout, fc.mode)
		defer x.srv.Close()
		nerr := 0
		var got []string
		for i, e := range x.errs {
			if e != nil {
				nerr++
				got = append(got, x.ops[i]+": "+firstLine(e))
			}
		}
		count := map[string]int{}
		for _, s := range x.srv.Sessions() {
			for _, r := range s.Requests() {
				if r.Kind == "RUN" {
					count[r.Query]++
				}
			}
		}
		for q, n := range count {
			if n > 1 && q != "BEGIN" && q != "COMMIT" && q != "ROLLBACK" {
				x.fail([]string{"C12"}, "%q was transmitted %d times", q, n)
			}
		}
		if nerr > 1 {
			x.fail([]string{"C12", "C21"}, "%d operations failed: the broken connection was not replaced: %s", nerr, strings.Join(got, "; "))
		}
		eff := map[string]int{}
		for _, e := range x.srv.Commits() {
			eff[e]++
			if eff[e] > 1 {
				x.fail([]string{"C12", "C13"}, "%q took effect twice", e)
			}
		}
		if eff["effect t2a"] > 0 {
			x.fail([]string{"C13"}, "work that was rolled back took effect")
		}
		for i, op := range x.ops {
			if x.errs[i] == nil {
				var want []string
				switch f := strings.Fields(op); {
				case op == "tx t1":
					want = []string{"effect t1a", "effect t1b"}
				case op == "tx t2" || op == "db.Close" || f[0] == "fail":
				default:
					want = []string{"effect " + f[1]}
				}
				for _, e := range want {
					if eff[e] != 1 && op != "query q2" {
						x.fail([]string{"C11", "C12", "C13"}, "%s was reported successful but %q took effect %d times", op, e, eff[e])
					}
				}
			}
		}
		c.Eval(desc)
		c.Count("sql.faults_survived", 1)
		c.SampleN(suite, 2, func() interface{} {
			return map[string]interface{}{"suite": suite, "fault": desc, "failed": got, "connections": len(x.srv.Sessions())}
		})
		if x.bad != "" {
			viol(c, suite, name, x.props, desc+": "+x.bad)
		}
	})
}

var _ = bolt.ClientID
