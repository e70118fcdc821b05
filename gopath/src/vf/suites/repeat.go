package suites

import (
	"database/sql"
	"fmt"
	"io"
	"math/rand"
	"strings"
	"sync"

	bolt "github.com/johnnadratowski/golang-neo4j-bolt-driver"
	"github.com/johnnadratowski/golang-neo4j-bolt-driver/encoding"

	"vf/boltsrv"
	"vf/h"
	"vf/ref"
)

func init() {
	register(Suite{Name: "session.repeat", Props: []string{"C08", "C09", "C10", "C13", "C21", "C22"}, Run: sessionRepeat})
}

// repeat is a history in which the same few statements and parameters are sent
// over and over; the server numbers what it runs, so that an answer that isn't
// the answer to this very request shows.
type repeat struct {
	sql   bool
	c     *h.Ctx
	name  string
	r     *rand.Rand
	srv   *boltsrv.Server
	texts []string
	mu    sync.Mutex
	seq   int64 // statements the server has run
	fail  bool  // the next one fails
	want  []runExp
	trace []string
	bad   bool
	kept  []keptRow
}

type keptRow struct {
	n   int64
	i   int
	row []interface{}
}

func (x *repeat) viol(props []string, f string, a ...interface{}) {
	if !x.bad {
		x.bad = true
		if x.sql {
			props = append(props[:len(props):len(props)], "C21")
		}
		t := x.trace
		if len(t) > 40 {
			t = t[len(t)-40:]
		}
		viol(x.c, "session.repeat", x.name, props, fmt.Sprintf(f, a...), t...)
	}
}

func (x *repeat) rowsOf(n int64) int { return int(n % 4) }

func (x *repeat) handle(s *boltsrv.Session, q string, p interface{}) *boltsrv.Script {
	x.mu.Lock()
	defer x.mu.Unlock()
	x.seq++
	if x.fail {
		x.fail = false
		return &boltsrv.Script{FailRun: ref.Map{"code": "Neo.TransientError.Transaction.DeadlockDetected", "message": fmt.Sprintf("%d", x.seq)}}
	}
	sc := &boltsrv.Script{
		RunMeta:  ref.Map{"fields": []interface{}{"n", "i"}, "seq": x.seq},
		PullMeta: ref.Map{"seq": x.seq, "stats": ref.Map{"nodes-created": x.seq}},
	}
	for i := 0; i < x.rowsOf(x.seq); i++ {
		sc.Rows = append(sc.Rows, []interface{}{x.seq, int64(i)})
	}
	return sc
}

// send notes what is about to be sent and returns its number.
func (x *repeat) send(text string, p map[string]interface{}) int64 {
	x.mu.Lock()
	defer x.mu.Unlock()
	if p == nil {
		p = map[string]interface{}{}
	}
	w, _ := ref.Wire(p)
	x.want = append(x.want, runExp{text: text, params: w})
	return int64(len(x.want))
}

func (x *repeat) failNext() {
	x.mu.Lock()
	x.fail = true
	x.mu.Unlock()
}

var repAll = []string{"C08", "C09"}

func (x *repeat) failed(what string, n int64, err error) {
	m, ok := failureMeta(err)
	if !ok || m["message"] != fmt.Sprintf("%d", n) {
		x.viol([]string{"C10", "C08", "C09"}, "%s: request %d: error %v instead of the server's failure number %d", what, n, err, n)
	}
}

func (x *repeat) result(what string, n int64, res interface {
	RowsAffected() (int64, error)
}, err error) {
	if err != nil {
		x.viol(repAll, "%s: request %d failed: %v", what, n, err)
		return
	}
	if k, err := res.RowsAffected(); err != nil || k != n {
		x.viol(repAll, "%s: request %d got the result of request %d (%v)", what, n, k, err)
	}
	x.c.Count("repeat.answers", 1)
}

func (x *repeat) row(what string, n int64, i int, d []interface{}, err error) bool {
	if err != nil || len(d) != 2 || d[0] != n || d[1] != int64(i) {
		x.viol(repAll, "%s: row %d of request %d is %v, %v", what, i, n, d, err)
		return false
	}
	if len(x.kept) < 2000 {
		x.kept = append(x.kept, keptRow{n, i, d})
	}
	return true
}

func (x *repeat) readRows(what string, n int64, rs bolt.Rows, err error) {
	if err != nil {
		x.viol(repAll, "%s: request %d failed: %v", what, n, err)
		return
	}
	if rs.Metadata()["seq"] != n {
		x.viol(repAll, "%s: request %d got the header of request %v", what, n, rs.Metadata()["seq"])
	}
	stop := -1
	if x.r.Intn(4) == 0 {
		stop = x.r.Intn(4)
	}
	for i := 0; i < x.rowsOf(n) && i != stop; i++ {
		d, _, err := rs.NextNeo()
		if !x.row(what, n, i, d, err) {
			break
		}
	}
	if stop < 0 {
		if _, m, err := rs.NextNeo(); err != io.EOF || m["seq"] != n {
			x.viol(repAll, "%s: the end of request %d is %v, %v", what, n, m, err)
		}
	}
	if err := rs.Close(); err != nil {
		x.viol(repAll, "%s: closing the rows of request %d: %v", what, n, err)
	}
	x.c.Count("repeat.answers", 1)
}

func (x *repeat) readPipe(what string, ns []int64, prs bolt.PipelineRows, err error) {
	if err != nil {
		x.viol(repAll, "%s: request %d failed: %v", what, ns[0], err)
		return
	}
	first := prs
	stop := -1
	if x.r.Intn(4) == 0 {
		stop = x.r.Intn(len(ns))
	}
	for k, n := range ns {
		if k == stop {
			break
		}
		if prs.Metadata()["seq"] != n {
			x.viol(repAll, "%s: request %d got the header of request %v", what, n, prs.Metadata()["seq"])
		}
		for i := 0; i < x.rowsOf(n); i++ {
			d, _, _, err := prs.NextPipeline()
			if !x.row(what, n, i, d, err) {
				return
			}
		}
		d, _, next, err := prs.NextPipeline()
		if d != nil {
			x.viol(repAll, "%s: a row too many in request %d: %v", what, n, d)
		}
		if k < len(ns)-1 {
			if err != nil || next == nil {
				x.viol(repAll, "%s: the end of request %d is %v, %v", what, n, next, err)
				return
			}
			prs = next
		}
		x.c.Count("repeat.answers", 1)
	}
	prs.Close()
	_ = first
}

// neoStep makes one call (or a few on one statement) on a connection.
func (x *repeat) neoStep(cn bolt.Conn, params []map[string]interface{}) {
	r := x.r
	text := func() string { return x.texts[r.Intn(len(x.texts))] }
	t, p := text(), params[r.Intn(len(params))]
	k := 1 + r.Intn(4)
	same := r.Intn(2) == 0
	members := 1 + r.Intn(6)
	if r.Intn(30) == 0 {
		members = 100 + r.Intn(320) // a long pipeline, its statements short
		t, p = "RETURN 1", map[string]interface{}{"k": int64(members)}
		params = append([]map[string]interface{}{}, p, nil)
	}
	texts := make([]string, members)
	ps := make([]map[string]interface{}, len(texts))
	for i := range texts {
		texts[i], ps[i] = text(), params[r.Intn(len(params))]
		if same || members > 99 {
			texts[i], ps[i] = t, p
		}
	}
	numbers := func() (ns []int64) {
		for i := range texts {
			ns = append(ns, x.send(texts[i], ps[i]))
		}
		return
	}
	w := r.Intn(10)
	x.trace = append(x.trace, fmt.Sprintf("way %d %q %v (%d statements)", w, t, p, len(texts)))
	switch w {
	case 0:
		n := x.send(t, p)
		res, err := cn.ExecNeo(t, p)
		x.result("ExecNeo", n, res, err)
	case 1:
		n := x.send(t, p)
		rs, err := cn.QueryNeo(t, p)
		x.readRows("QueryNeo", n, rs, err)
	case 2:
		n := x.send(t, p)
		d, hm, m, err := cn.QueryNeoAll(t, p)
		if err != nil || len(d) != x.rowsOf(n) || hm["seq"] != n || m["seq"] != n {
			x.viol(repAll, "QueryNeoAll: request %d gave %v %v %v %v", n, d, hm, m, err)
		}
		for i := range d {
			x.row("QueryNeoAll", n, i, d[i], nil)
		}
	case 3, 4:
		st, err := cn.PrepareNeo(t)
		if err != nil {
			x.viol(repAll, "PrepareNeo: %v", err)
			return
		}
		for ; k > 0; k-- {
			if !same {
				p = params[r.Intn(len(params))]
			}
			n := x.send(t, p)
			if r.Intn(2) == 0 {
				res, err := st.ExecNeo(p)
				x.result("Stmt.ExecNeo", n, res, err)
			} else {
				rs, err := st.QueryNeo(p)
				x.readRows("Stmt.QueryNeo", n, rs, err)
			}
		}
		st.Close()
	case 5:
		ns := numbers()
		res, err := cn.ExecPipeline(texts, ps...)
		if err != nil || len(res) != len(ns) {
			x.viol(repAll, "ExecPipeline: %d results, %v", len(res), err)
			return
		}
		for i := range ns {
			x.result("ExecPipeline", ns[i], res[i], nil)
		}
	case 6:
		ns := numbers()
		prs, err := cn.QueryPipeline(texts, ps...)
		x.readPipe("QueryPipeline", ns, prs, err)
	case 7:
		st, err := cn.PreparePipeline(texts...)
		if err != nil {
			x.viol(repAll, "PreparePipeline: %v", err)
			return
		}
		for ; k > 0; k-- {
			ns := numbers()
			if r.Intn(2) == 0 {
				res, err := st.ExecPipeline(ps...)
				if err != nil || len(res) != len(ns) {
					x.viol(repAll, "Stmt.ExecPipeline: %d results, %v", len(res), err)
					return
				}
				for i := range ns {
					x.result("Stmt.ExecPipeline", ns[i], res[i], nil)
				}
			} else {
				prs, err := st.QueryPipeline(ps...)
				x.readPipe("Stmt.QueryPipeline", ns, prs, err)
			}
		}
		st.Close()
	case 8: // a failure, then the same again
		for _, f := range []bool{true, false, true, true, false}[:2+r.Intn(4)] {
			if f {
				x.failNext()
			}
			n := x.send(t, p)
			var err error
			if r.Intn(2) == 0 {
				var res bolt.Result
				res, err = cn.ExecNeo(t, p)
				if !f {
					x.result("ExecNeo after a failure", n, res, err)
				}
			} else {
				var rs bolt.Rows
				rs, err = cn.QueryNeo(t, p)
				if !f {
					x.readRows("QueryNeo after a failure", n, rs, err)
				}
			}
			if f {
				x.failed("the failing statement", n, err)
			}
		}
	case 9:
		tx, err := cn.Begin()
		if err != nil {
			x.viol([]string{"C13", "C08"}, "Begin: %v", err)
			return
		}
		for ; k > 0; k-- {
			n := x.send(t, p)
			res, err := cn.ExecNeo(t, p)
			x.result("ExecNeo in a transaction", n, res, err)
		}
		if r.Intn(2) == 0 {
			err = tx.Commit()
		} else {
			err = tx.Rollback()
		}
		if err != nil {
			x.viol([]string{"C13", "C08"}, "ending the transaction: %v", err)
		}
	}
}

type sqlRunner interface {
	Exec(q string, a ...interface{}) (sql.Result, error)
	Query(q string, a ...interface{}) (*sql.Rows, error)
	Prepare(q string) (*sql.Stmt, error)
}

func (x *repeat) sqlStep(db *sql.DB, params []map[string]interface{}) {
	r := x.r
	props := []string{"C21", "C08", "C09"}
	t, p := x.texts[r.Intn(len(x.texts))], params[r.Intn(len(params))]
	var args []interface{}
	pass := map[string]interface{}{}
	if len(p) > 0 {
		b, err := encoding.Marshal(p)
		if err != nil {
			return
		}
		args, pass = []interface{}{b}, p
	}
	var on sqlRunner = db
	var tx *sql.Tx
	if r.Intn(4) == 0 {
		var err error
		if tx, err = db.Begin(); err != nil {
			x.viol([]string{"C13", "C21"}, "Begin: %v", err)
			return
		}
		on = tx
	}
	readRows := func(n int64, rows *sql.Rows, err error) {
		if err != nil {
			x.viol(props, "sql: request %d failed: %v", n, err)
			return
		}
		i := 0
		for rows.Next() {
			var a, b int64
			err := rows.Scan(&a, &b)
			if !x.row("sql", n, i, []interface{}{a, b}, err) {
				break
			}
			i++
		}
		if err := rows.Close(); err != nil || rows.Err() != nil || i != x.rowsOf(n) {
			x.viol(props, "sql: request %d gave %d rows, %v %v", n, i, err, rows.Err())
		}
	}
	w := r.Intn(3)
	k := 1
	x.trace = append(x.trace, fmt.Sprintf("sql way %d %q %v", w, t, p))
	switch w {
	case 0, 1:
		for k = 1 + r.Intn(3); k > 0; k-- {
			n := x.send(t, pass)
			if w == 0 {
				res, err := on.Exec(t, args...)
				x.result("sql Exec", n, res, err)
			} else {
				rows, err := on.Query(t, args...)
				readRows(n, rows, err)
			}
		}
	case 2:
		st, err := on.Prepare(t)
		if err != nil {
			x.viol(props, "sql Prepare: %v", err)
			break
		}
		for k = 1 + r.Intn(4); k > 0; k-- {
			n := x.send(t, pass)
			if r.Intn(2) == 0 {
				res, err := st.Exec(args...)
				x.result("sql Stmt.Exec", n, res, err)
			} else {
				rows, err := st.Query(args...)
				readRows(n, rows, err)
			}
		}
		st.Close()
	}
	if tx != nil {
		var err error
		if r.Intn(2) == 0 {
			err = tx.Commit()
		} else {
			err = tx.Rollback()
		}
		if err != nil {
			x.viol([]string{"C13", "C21"}, "sql: ending the transaction: %v", err)
		}
	}
}

func sessionRepeat(c *h.Ctx) {
	const suite = "session.repeat"
	c.Rule(suite, "histories of 2-800 calls with the same one to three statements with the same one to three parameter maps over and over (alone, prepared, in pipelines of equal members, in transactions, after failures of the same statement, through a pool and database/sql). The server numbers each statement it runs and answers with the number, so every answer must carry the number of its own request, the server must have received exactly the statements sent, as often as sent, and the parameter maps passed must not have been changed. Distinct by history")
	n := c.Pick(1500, 30000)
	c.Each(suite, n, func(w, i int, name string) {
		r := c.Rand(suite, i)
		x := &repeat{c: c, name: name, r: r}
		g := &ref.Gen{R: r, Budget: 8}
		for k := 1 + r.Intn(3); k > 0; k-- {
			x.texts = append(x.texts, []string{"CREATE (n:Thing)", "MATCH (n) RETURN n", "RETURN 1", "", "create (n:Thing)"}[r.Intn(5)])
		}
		if r.Intn(3) == 0 {
			x.texts = similarTexts(r)
			c.Count("repeat.similar_texts", 1)
		}
		params := []map[string]interface{}{nil}
		for k := r.Intn(3); k > 0; k-- {
			g.Budget = 8
			params = append(params, g.Props(3))
		}
		if r.Intn(3) == 0 {
			params = append(params, map[string]interface{}{})
		}
		if r.Intn(6) == 0 {
			m := map[string]interface{}{"": "empty key", " ": nil}
			for k := []int{14, 15, 16, 40, 255, 256, 300}[r.Intn(7)]; k > 2; k-- {
				m[fmt.Sprintf("p%d", k)] = int64(k)
			}
			params = append(params, m)
		}
		if r.Intn(3) == 0 {
			params = params[len(params)-1:]
		}
		if r.Intn(3) == 0 {
			params = similarParams(r)
			c.Count("repeat.similar_parameters", 1)
		}
		reuse := r.Intn(3) == 0 // the caller changes its map between calls
		before := make([]interface{}, len(params))
		for k := range params {
			before[k], _ = ref.Wire(params[k])
		}
		x.srv = boltsrv.New()
		x.srv.Handler = x.handle
		x.srv.Seed = int64(i)
		x.srv.Frag = []int{0, 0, 1}[r.Intn(3)]
		x.srv.Start()
		defer x.srv.Close()
		change := func() {
			k := r.Intn(len(params))
			if !reuse || params[k] == nil || r.Intn(2) == 0 {
				return
			}
			for key := range params[k] {
				if len(params[k]) > 1 && r.Intn(8) == 0 {
					delete(params[k], key)
				}
				break
			}
			params[k][[]string{"v", "a", "new"}[r.Intn(3)]] = []interface{}{int64(r.Intn(5)), "text", nil, 1.5}[r.Intn(4)]
			before[k], _ = ref.Wire(params[k])
			c.Count("repeat.parameters_changed_by_caller", 1)
		}
		mode := r.Intn(4)
		x.sql = mode == 0
		steps := 2 + r.Intn(12)
		if i%50 == 0 {
			steps = 200 + r.Intn(600)
		}
		o := h.Guard(hangTicks, x.srv.Activity, func() {
			for _, s := range x.srv.Sessions() {
				s.Kill(boltsrv.RST)
			}
		}, func() {
			switch mode {
			case 0:
				db, err := sql.Open("neo4j-bolt", x.srv.URL())
				if err != nil {
					x.viol(repAll, "sql.Open: %v", err)
					return
				}
				defer db.Close()
				db.SetMaxOpenConns(1)
				for ; steps > 0 && !x.bad; steps-- {
					change()
					x.sqlStep(db, params)
				}
			case 1:
				p, err := bolt.NewClosableDriverPool(x.srv.URL(), 1+r.Intn(2))
				if err != nil {
					x.viol(repAll, "pool: %v", err)
					return
				}
				defer p.Close()
				for ; steps > 0 && !x.bad; steps-- {
					change()
					cn, err := p.OpenPool()
					if err != nil {
						x.viol(repAll, "OpenPool: %v", err)
						return
					}
					x.neoStep(cn, params)
					cn.Close()
				}
			default:
				cn, err := bolt.NewDriver().OpenNeo(x.srv.URL())
				if err != nil {
					x.viol(repAll, "OpenNeo: %v", err)
					return
				}
				defer cn.Close()
				for ; steps > 0 && !x.bad; steps-- {
					change()
					x.neoStep(cn, params)
				}
			}
		})
		if o.Bad() {
			x.viol([]string{"C08", "C09", "C10", "C13", "C21", "C22"}, "%s", o.String())
		}
		for k := range params {
			if after, _ := ref.Wire(params[k]); !x.bad {
				if eq, why := ref.Equal(before[k], after); !eq {
					x.viol(repAll, "the parameters passed were changed: %s", why)
				}
			}
		}
		for _, s := range x.srv.Sessions() {
			waitDone(s)
		}
		var got []*boltsrv.Request
		if !x.bad {
			// connections of a pool interleave; only the count of each is known then
			for _, s := range x.srv.Sessions() {
				for _, q := range s.Requests() {
					if q.Kind == "RUN" && q.Query != "BEGIN" && q.Query != "COMMIT" && q.Query != "ROLLBACK" {
						got = append(got, q)
					}
				}
			}
			for _, k := range x.kept {
				if k.row[0] != k.n || k.row[1] != int64(k.i) {
					x.viol(repAll, "row %d of request %d has become %v after later calls", k.i, k.n, k.row)
				}
			}
			if len(got) != len(x.want) {
				x.viol(repAll, "the server received %d statements, %d were sent", len(got), len(x.want))
			} else if len(x.srv.Sessions()) == 1 {
				for k := range got {
					if got[k].Query != x.want[k].text {
						x.viol(repAll, "statement %d is %q, sent was %q", k, got[k].Query, x.want[k].text)
					}
					if eq, why := ref.Equal(x.want[k].params, got[k].Params); !eq {
						x.viol(repAll, "the parameters of statement %d (%q) differ: %s", k, got[k].Query, why)
					}
				}
			}
			for _, b := range x.srv.Breaches() {
				x.viol([]string{"C09"}, "protocol breach: %s %s", b.Kind, b.What)
			}
			c.Count("repeat.statements", int64(len(got)))
		}
		key := fmt.Sprint(mode, x.trace)
		c.Eval(key)
		c.SampleN(suite, 2, func() interface{} {
			return map[string]interface{}{"suite": suite, "mode": mode, "calls": x.trace}
		})
	})
}

// similarTexts are statements that are easily taken for each other.
func similarTexts(r *rand.Rand) []string {
	long := strings.Repeat("MATCH (n) RETURN n ", 1+r.Intn(30))
	f := [][]string{
		{long + "1", long + "2", long + "3"},
		{"1" + long, "2" + long},
		{"RETURN 1", "RETURN 1 ", "RETURN 1;", " RETURN 1", "RETURN  1", "RETURN 1\n"},
		{"return n", "RETURN n", "Return N"},
		{"RETURN {a}", "RETURN {b}", "RETURN $a"},
		{"// RETURN 1", "/* x */ RETURN 1", "RETURN 1"},
		{"RETURN 'a'", "RETURN \"a\"", "RETURN `a`"},
		{long[:len(long)/2] + "1" + long[len(long)/2:], long[:len(long)/2] + "2" + long[len(long)/2:]},
		{"begin", "commit", "rollback", "BEGIN ", " COMMIT", "ROLLBACK;"},
	}[r.Intn(9)]
	return append([]string{}, f[:2+r.Intn(len(f)-1)]...)
}

// similarParams are parameters that are easily taken for each other.
func similarParams(r *rand.Rand) []map[string]interface{} {
	type M = map[string]interface{}
	type L = []interface{}
	long := strings.Repeat("long text ", 1+r.Intn(40))
	f := [][]M{
		{{"v": long + "1"}, {"v": long + "2"}},
		{{"v": "1" + long}, {"v": "2" + long}},
		{{"v": int64(1)}, {"v": 1.0}, {"v": "1"}, {"v": true}, {"v": L{int64(1)}}, {"v": M{"1": int64(1)}}},
		{{"v": nil}, {"v": false}, {"v": int64(0)}, {"v": ""}, {"v": L{}}, {"v": M{}}},
		{{"a": int64(1), "b": int64(2)}, {"a": int64(2), "b": int64(1)}},
		{{"a": M{"b": M{"c": int64(1)}}}, {"a": M{"b": M{"c": int64(2)}}}},
		{{"a": int64(1)}, {"a": int64(1), "b": int64(1)}, {"A": int64(1)}},
		{{"v": L{int64(1), int64(2)}}, {"v": L{int64(2), int64(1)}}, {"v": L{L{int64(1)}, int64(2)}}},
		{{"v": int64(127)}, {"v": int64(128)}, {"v": int64(-128)}, {"v": int64(-129)}},
		{{long: int64(1), "v": long, "z": int64(1)}, {long: int64(1), "v": long, "z": int64(2)}},
	}[r.Intn(10)]
	return append([]M{}, f[:2+r.Intn(len(f)-1)]...)
}
