package suites

import (
	"crypto/tls"
	"database/sql"
	"database/sql/driver"
	"fmt"
	"io"
	"strings"
	"sync"
	"time"

	bolt "github.com/johnnadratowski/golang-neo4j-bolt-driver"
	"github.com/johnnadratowski/golang-neo4j-bolt-driver/encoding"

	"vf/boltsrv"
	"vf/h"
	"vf/ref"
)

func init() {
	register(Suite{Name: "fault.cut", Props: []string{"C11", "C12", "C13", "C26", "C10", "C14"}, Run: faultCut})
	register(Suite{Name: "fault.stuck", Props: []string{"C12", "C11", "C26"}, Run: faultStuck})
	register(Suite{Name: "fault.mangle", Props: []string{"C12", "C06", "C11", "C26", "C14"}, Run: faultMangle})
}

// prog is a fixed sequence of API calls whose clean results are known.
type prog struct {
	name    string
	scripts map[string]*boltsrv.Script
	run     func(x *cutRun)
	ackFail bool   // the server refuses every ACK_FAILURE
	txFail  string // the server refuses this (BEGIN, COMMIT, ROLLBACK)
	txLate  bool   // and does so after a successful RUN
}

type outcome struct {
	what string
	val  interface{}
	err  error
	kind string // work, close
	eof  bool
}

// cutRun is one execution of a prog.
type cutRun struct {
	c         *h.Ctx
	suite     string
	name      string
	srv       *boltsrv.Server
	conn      bolt.Conn
	out       []outcome
	firstErr  int // index of the first failed work or close call
	onError   func()
	stop      bool
	runs      []int // RUNs received once each call had returned
	hung      string
	panicked  string
	sessAtErr int
	quiet     bool // note failures instead of reporting them
	failed    string
}

func newCutRun(c *h.Ctx, suite, name string, srv *boltsrv.Server) *cutRun {
	return &cutRun{c: c, suite: suite, name: name, srv: srv, firstErr: -1}
}

func (x *cutRun) runsSeen() int {
	n := 0
	for _, s := range x.srv.Sessions() {
		for _, r := range s.Requests() {
			if r.Kind == "RUN" {
				n++
			}
		}
	}
	return n
}

// call makes one API call; it returns false when the program can't go on.
func (x *cutRun) call(kind, what string, fn func() (interface{}, error)) bool {
	if x.stop {
		return false
	}
	var v interface{}
	var err error
	o := h.Guard(hangTicks, x.srv.Activity, func() {
		for _, s := range x.srv.Sessions() {
			s.Kill(boltsrv.RST)
		}
	}, func() { v, err = fn() })
	if o.Panic != nil {
		x.panicked = what + ": " + o.String()
		x.stop = true
		return false
	}
	if o.Hung {
		x.hung = what
		x.stop = true
		return false
	}
	eof := err == io.EOF && kind == "next"
	x.out = append(x.out, outcome{what: what, val: v, err: err, kind: kind, eof: eof})
	x.runs = append(x.runs, x.runsSeen())
	if err != nil && !eof && !plainFailure(err) && x.firstErr < 0 {
		x.firstErr = len(x.out) - 1
		if x.onError != nil {
			x.onError()
		}
	}
	return true
}

func (x *cutRun) exec(q string, p map[string]interface{}) {
	x.call("work", "ExecNeo "+q, func() (interface{}, error) {
		r, err := x.conn.ExecNeo(q, p)
		if err != nil {
			return nil, err
		}
		n, e := r.RowsAffected()
		return []interface{}{r.Metadata(), n}, e
	})
}

func (x *cutRun) all(q string) {
	x.call("work", "QueryNeoAll "+q, func() (interface{}, error) {
		d, m, e, err := x.conn.QueryNeoAll(q, nil)
		if err != nil {
			return nil, err
		}
		return []interface{}{rowsVal(d), m, e}, nil
	})
}

func rowsVal(d [][]interface{}) []interface{} {
	out := []interface{}{}
	for _, r := range d {
		out = append(out, r)
	}
	return out
}

func (x *cutRun) query(q string) bolt.Rows {
	var rows bolt.Rows
	x.call("work", "QueryNeo "+q, func() (interface{}, error) {
		r, err := x.conn.QueryNeo(q, nil)
		if err != nil {
			return nil, err
		}
		rows = r
		return r.Metadata(), nil
	})
	return rows
}

func (x *cutRun) next(rows bolt.Rows, n int) {
	for i := 0; i < n && rows != nil; i++ {
		x.call("next", "NextNeo", func() (interface{}, error) {
			r, m, err := rows.NextNeo()
			return []interface{}{r, m}, err
		})
	}
}

func (x *cutRun) closeIt(what string, c interface{ Close() error }) {
	x.call("close", what, func() (interface{}, error) { return nil, c.Close() })
}

func (x *cutRun) begin() driver.Tx {
	var tx driver.Tx
	x.call("work", "Begin", func() (interface{}, error) {
		t, err := x.conn.Begin()
		if err == nil {
			tx = t
		}
		return nil, err
	})
	return tx
}

// battery makes all kinds of calls, used after a fault.
func (x *cutRun) battery() {
	x.exec("after1", nil)
	rows := x.query("after2")
	if rows != nil {
		x.next(rows, 3)
		x.closeIt("rows.Close", rows)
	}
	x.all("after3")
	if tx := x.begin(); tx != nil {
		x.call("work", "Commit", func() (interface{}, error) { return nil, tx.Commit() })
	}
	x.call("work", "Prepare+Query", func() (interface{}, error) {
		st, err := x.conn.PrepareNeo("after4")
		if err != nil {
			return nil, err
		}
		defer st.Close()
		r, err := st.QueryNeo(nil)
		if err != nil {
			return nil, err
		}
		d, m, err := r.All()
		if err != nil {
			return nil, err
		}
		return []interface{}{rowsVal(d), m}, nil
	})
	x.call("work", "ExecPipeline", func() (interface{}, error) {
		r, err := x.conn.ExecPipeline([]string{"after5", "after6"}, nil, nil)
		if err != nil {
			return nil, err
		}
		return []interface{}{r[0].Metadata(), r[1].Metadata()}, nil
	})
	x.call("work", "QueryPipeline", func() (interface{}, error) {
		r, err := x.conn.QueryPipeline([]string{"after7"}, nil)
		if err != nil {
			return nil, err
		}
		defer r.Close()
		row, _, _, err := r.NextPipeline()
		return row, err
	})
}

// plainFailure tells whether err is a failure of the server that leaves the
// session usable (a refused RESET does not).
func plainFailure(err error) bool {
	m, ok := failureMeta(err)
	return ok && m["code"] != "Neo.ResetRefused"
}

func simpleScript(q string, rows int) *boltsrv.Script {
	sc := &boltsrv.Script{RunMeta: ref.Map{"fields": []interface{}{"a", "b"}}, PullMeta: ref.Map{"type": "rw", "of": q, "stats": ref.Map{"nodes-created": int64(3)}}, Effect: "effect " + q}
	for i := 0; i < rows; i++ {
		sc.Rows = append(sc.Rows, []interface{}{q, int64(i)})
	}
	return sc
}

func progScripts(qs map[string]int) map[string]*boltsrv.Script {
	m := map[string]*boltsrv.Script{}
	for q, n := range qs {
		m[q] = simpleScript(q, n)
	}
	for i := 1; i <= 7; i++ {
		q := fmt.Sprintf("after%d", i)
		m[q] = simpleScript(q, 2)
	}
	return m
}

func progs() []*prog {
	var ps []*prog
	add := func(name string, qs map[string]int, run func(x *cutRun)) *prog {
		p := &prog{name: name, scripts: progScripts(qs), run: run}
		ps = append(ps, p)
		return p
	}
	add("exec", map[string]int{"a": 0, "b": 2}, func(x *cutRun) {
		x.exec("a", map[string]interface{}{"k": []interface{}{1, "two", 3.5}})
		x.exec("b", nil)
	})
	add("query", map[string]int{"a": 3, "b": 4, "c": 2}, func(x *cutRun) {
		x.all("a")
		if r := x.query("b"); r != nil {
			x.next(r, 2)
			x.closeIt("rows.Close", r)
		}
		if r := x.query("c"); r != nil {
			x.next(r, 5)
			x.closeIt("rows.Close", r)
		}
	})
	add("prepared", map[string]int{"a": 3, "b": 0}, func(x *cutRun) {
		var st bolt.Stmt
		x.call("local", "Prepare", func() (interface{}, error) {
			s, err := x.conn.PrepareNeo("a")
			if err == nil {
				st = s
			}
			return nil, err
		})
		if st == nil {
			return
		}
		q := func() bolt.Rows {
			var rows bolt.Rows
			x.call("work", "stmt.QueryNeo", func() (interface{}, error) {
				r, err := st.QueryNeo(nil)
				if err != nil {
					return nil, err
				}
				rows = r
				return r.Metadata(), nil
			})
			return rows
		}
		if r := q(); r != nil {
			x.next(r, 2)
			x.closeIt("rows.Close", r)
		}
		x.call("work", "stmt.ExecNeo", func() (interface{}, error) {
			r, err := st.ExecNeo(nil)
			if err != nil {
				return nil, err
			}
			return r.Metadata(), nil
		})
		if r := q(); r != nil {
			x.closeIt("rows.Close", r)
		}
		q()
		x.closeIt("stmt.Close", st)
		x.exec("b", nil)
	})
	add("pipeline", map[string]int{"a": 2, "b": 0, "c": 1, "d": 2, "e": 1, "f": 3, "g": 1, "i": 2}, func(x *cutRun) {
		x.call("work", "ExecPipeline", func() (interface{}, error) {
			r, err := x.conn.ExecPipeline([]string{"a", "b", "c"}, nil, map[string]interface{}{"x": 1}, nil)
			if err != nil {
				return nil, err
			}
			out := []interface{}{}
			for _, e := range r {
				out = append(out, e.Metadata())
			}
			return out, nil
		})
		pipe := func(qs []string, steps int) {
			var rows bolt.PipelineRows
			x.call("work", "QueryPipeline", func() (interface{}, error) {
				r, err := x.conn.QueryPipeline(qs, make([]map[string]interface{}, len(qs))...)
				if err != nil {
					return nil, err
				}
				rows = r
				return r.Metadata(), nil
			})
			if rows == nil {
				return
			}
			for i := 0; i < steps; i++ {
				x.call("next", "NextPipeline", func() (interface{}, error) {
					r, m, n, err := rows.NextPipeline()
					if n != nil {
						rows = n
					}
					return []interface{}{r, m, n != nil}, err
				})
			}
			x.closeIt("rows.Close", rows)
		}
		pipe([]string{"d", "e", "f"}, 10)
		pipe([]string{"g", "i"}, 1)
	})
	add("commit", map[string]int{"a": 0, "b": 3, "c": 1}, func(x *cutRun) {
		if tx := x.begin(); tx != nil {
			x.exec("a", nil)
			if r := x.query("b"); r != nil {
				x.next(r, 1)
			}
			x.call("work", "Commit", func() (interface{}, error) { return nil, tx.Commit() })
		}
		x.exec("c", nil)
	})
	add("rollback", map[string]int{"a": 0, "b": 3, "c": 1}, func(x *cutRun) {
		if tx := x.begin(); tx != nil {
			x.exec("a", nil)
			if r := x.query("b"); r != nil {
				x.next(r, 1)
				x.closeIt("rows.Close", r)
			}
			x.call("work", "Rollback", func() (interface{}, error) { return nil, tx.Rollback() })
		}
		x.exec("c", nil)
	})
	fp := add("failures", map[string]int{"a": 0, "b": 3, "c": 1, "d": 2, "e": 1}, func(x *cutRun) {
		x.exec("a", nil)
		if r := x.query("b"); r != nil {
			x.next(r, 4)
			x.closeIt("rows.Close", r)
		}
		x.exec("c", nil)
		x.call("work", "ExecPipeline", func() (interface{}, error) {
			r, err := x.conn.ExecPipeline([]string{"c", "d", "e"}, nil, nil, nil)
			if err != nil {
				return nil, err
			}
			return len(r), nil
		})
		x.exec("e", nil)
	})
	fp.scripts["a"].FailRun = ref.Map{"code": "Neo.A", "message": "a fails"}
	fp.scripts["b"].FailPull, fp.scripts["b"].FailPullAt = ref.Map{"code": "Neo.B", "message": "b fails"}, 2
	fp.scripts["d"].FailRun = ref.Map{"code": "Neo.D", "message": "d fails"}
	add("closing", map[string]int{"a": 0, "b": 5}, func(x *cutRun) {
		if tx := x.begin(); tx != nil {
			x.exec("a", nil)
			if r := x.query("b"); r != nil {
				x.next(r, 1)
			}
		}
	})
	bp := add("big", map[string]int{"a": 3, "b": 1}, func(x *cutRun) {
		x.exec("b", map[string]interface{}{"blob": strings.Repeat("p", 70000)})
		x.all("a")
	})
	bp.scripts["a"].Rows[1][1] = strings.Repeat("z", 66000)
	rp := add("refused", map[string]int{"a": 0, "b": 3, "c": 1, "d": 2, "e": 1, "f": 2}, func(x *cutRun) {
		x.exec("a", nil)
		if r := x.query("b"); r != nil {
			x.next(r, 1)
			x.closeIt("rows.Close", r)
		}
		x.exec("c", nil)
		x.call("work", "ExecPipeline", func() (interface{}, error) {
			r, err := x.conn.ExecPipeline([]string{"c", "d", "e"}, nil, nil, nil)
			if err != nil {
				return nil, err
			}
			return len(r), nil
		})
		var st bolt.Stmt
		x.call("local", "Prepare", func() (interface{}, error) {
			s, err := x.conn.PrepareNeo("f")
			if err == nil {
				st = s
			}
			return nil, err
		})
		if st == nil {
			return
		}
		x.call("work", "stmt.QueryNeo", func() (interface{}, error) {
			r, err := st.QueryNeo(nil)
			if err != nil {
				return nil, err
			}
			return r.Metadata(), nil
		})
		x.closeIt("stmt.Close", st)
		x.exec("e", nil)
	})
	rp.ackFail = true
	rp.scripts["a"].FailRun = ref.Map{"code": "Neo.A", "message": "a fails"}
	rp.scripts["b"].FailPull, rp.scripts["b"].FailPullAt = ref.Map{"code": "Neo.B", "message": "b fails"}, 2
	rp.scripts["d"].FailRun = ref.Map{"code": "Neo.D", "message": "d fails"}
	rp.scripts["f"].FailPull = ref.Map{"code": "Neo.F", "message": "f fails"}
	// queries that fail while their rows are pulled
	lp := add("late", map[string]int{"a": 2, "b": 3, "c": 1, "d": 2, "e": 2}, func(x *cutRun) {
		x.exec("a", nil)
		x.exec("c", nil)
		x.call("work", "ExecPipeline", func() (interface{}, error) {
			r, err := x.conn.ExecPipeline([]string{"c", "b", "d"}, nil, nil, nil)
			if err != nil {
				return nil, err
			}
			return len(r), nil
		})
		for _, qs := range [][]string{{"c", "d", "b"}, {"b", "c"}, {"c", "d"}, {"d", "c", "a"}} {
			var rows bolt.PipelineRows
			x.call("work", "QueryPipeline", func() (interface{}, error) {
				r, err := x.conn.QueryPipeline(qs, make([]map[string]interface{}, len(qs))...)
				if err != nil {
					return nil, err
				}
				rows = r
				return r.Metadata(), nil
			})
			if rows != nil {
				x.closeIt("rows.Close", rows)
			}
		}
		x.exec("e", nil)
	})
	lp.scripts["a"].FailPull, lp.scripts["a"].FailPullAt = ref.Map{"code": "Neo.A", "message": "a fails"}, 0
	lp.scripts["b"].FailPull, lp.scripts["b"].FailPullAt = ref.Map{"code": "Neo.B", "message": "b fails"}, 2
	for _, op := range []string{"COMMIT", "ROLLBACK", "BEGIN", "COMMIT-late", "ROLLBACK-late", "BEGIN-late"} {
		name, late := op, strings.HasSuffix(op, "-late")
		op := strings.TrimSuffix(op, "-late")
		tp := add("tx-"+name, map[string]int{"a": 0, "b": 3, "c": 1}, func(x *cutRun) {
			if tx := x.begin(); tx != nil {
				x.exec("a", nil)
				if r := x.query("b"); r != nil {
					x.next(r, 1)
				}
				if op == "COMMIT" {
					x.call("work", "Commit", func() (interface{}, error) { return nil, tx.Commit() })
				} else {
					x.call("work", "Rollback", func() (interface{}, error) { return nil, tx.Rollback() })
				}
			}
			x.exec("c", nil)
		})
		tp.txFail, tp.txLate = op, late
	}
	return ps
}

func (p *prog) server() *boltsrv.Server {
	srv := boltsrv.New()
	if p.ackFail {
		srv.AckFail = func(*boltsrv.Session) ref.Map { return ref.Map{"code": "Neo.Ack", "message": "not acknowledged"} }
	}
	if p.txFail != "" {
		srv.TxFail = func(s *boltsrv.Session, op string) ref.Map {
			if op == p.txFail {
				return ref.Map{"code": "Neo.Tx", "message": op + " fails"}
			}
			return nil
		}
		srv.TxFailPull = func(*boltsrv.Session, string) bool { return p.txLate }
	}
	srv.Handler = func(s *boltsrv.Session, q string, params interface{}) *boltsrv.Script { return p.scripts[q] }
	return srv
}

const shortTimeout = 40 * time.Millisecond

// setup opens the connection; ok false when opening failed (an outcome too).
func (x *cutRun) open(url string, timeout time.Duration) bool {
	x.call("work", "OpenNeo", func() (interface{}, error) {
		cn, err := bolt.NewDriver().OpenNeo(url)
		if err != nil {
			return nil, err
		}
		x.conn = cn
		return nil, nil
	})
	if x.conn != nil && timeout > 0 {
		x.conn.SetTimeout(timeout)
	}
	return x.conn != nil
}

var baseMu sync.Mutex

type baseline struct {
	out     []outcome
	in, bo  int64
	commits []string
	runs    []int // RUNs received once each call had returned
}

// clean runs the program without faults and remembers what it gives.
func (p *prog) clean(c *h.Ctx, suite string, tcfg *tls.Config, suffix string) (*baseline, string) {
	srv := p.server()
	srv.TLS = tcfg
	srv.Start()
	defer srv.Close()
	x := newCutRun(c, suite, p.name, srv)
	if !x.open(srv.URL()+suffix, 0) {
		return nil, fmt.Sprintf("program %s could not open: %s%s%s", p.name, x.hung, x.panicked, errText(x.out))
	}
	p.run(x)
	if !x.stop {
		x.call("close", "conn.Close", func() (interface{}, error) { return nil, x.conn.Close() })
	}
	if x.stop {
		return nil, fmt.Sprintf("program %s without any fault: %s %s", p.name, x.hung, x.panicked)
	}
	if x.firstErr >= 0 {
		return nil, fmt.Sprintf("program %s without any fault: %s failed: %s", p.name, x.out[x.firstErr].what, firstLine(x.out[x.firstErr].err))
	}
	s := srv.Sessions()[0]
	waitDone(s)
	b := &baseline{out: x.out, commits: srv.Commits(), runs: x.runs}
	for i := len(b.out) - 2; i >= 0; i-- {
		// reading and closing rows sends no RUN, but may be what waits for those of a pipeline
		if o := b.out[i+1]; o.kind == "next" || o.what == "rows.Close" {
			b.runs[i] = b.runs[i+1]
		}
	}
	b.in, b.bo = s.Bytes()
	return b, ""
}

func errText(o []outcome) string {
	for _, e := range o {
		if e.err != nil {
			return firstLine(e.err)
		}
	}
	return ""
}

// judge compares a faulted execution with the clean one.
func (x *cutRun) judge(b *baseline, badConn bool, desc string) {
	bad := func(props []string, f string, a ...interface{}) {
		var tr []string
		for _, o := range x.out {
			e := ""
			if o.err != nil {
				e = firstLine(o.err) + " / innermost " + trunc(fmt.Sprint(innermost(o.err)), 80)
			}
			tr = append(tr, trunc(fmt.Sprintf("%s -> %s err=%s", o.what, ref.Short(o.val), e), 220))
		}
		if x.quiet {
			x.failed = fmt.Sprintf(f, a...)
			return
		}
		viol(x.c, x.suite, x.name, props, fmt.Sprintf("%s: ", desc)+fmt.Sprintf(f, a...), tr...)
	}
	if x.panicked != "" {
		bad([]string{"C11", "C12", "C06"}, "%s", x.panicked)
		return
	}
	if x.hung != "" {
		bad([]string{"C11", "C12", "C06"}, "%s did not return", x.hung)
		return
	}
	broke := false
	for i, o := range x.out {
		failed := o.err != nil && !o.eof && !plainFailure(o.err)
		if broke {
			if o.kind != "close" && o.kind != "local" && !failed {
				bad([]string{"C11", "C12"}, "%s (call %d) gave %s, %v on a connection that had failed at call %d", o.what, i, ref.Short(o.val), o.err, x.firstErr)
				return
			}
			continue
		}
		if failed {
			broke = true
			if badConn && innermost(o.err) != driver.ErrBadConn {
				bad([]string{"C11"}, "%s failed with innermost error %T (%s), not driver.ErrBadConn", o.what, innermost(o.err), firstLine(o.err))
				return
			}
			x.c.Count("fault.errors_seen", 1)
			continue
		}
		if i < len(b.out) {
			w := b.out[i]
			if w.what != o.what {
				bad([]string{"C11", "C12"}, "call %d is %s, expected %s", i, o.what, w.what)
				return
			}
			if eq, why := ref.Equal(w.val, o.val); !eq || (w.err == nil) != (o.err == nil) {
				bad([]string{"C11", "C06"}, "%s (call %d) gave %s, %v; without the fault it gives %s, %v %s", o.what, i, ref.Short(o.val), o.err, ref.Short(w.val), w.err, why)
				return
			}
			x.c.Count("fault.results_compared", 1)
		}
	}
	if broke {
		// What the calls up to the failing one transmit is known from the clean run
		if x.firstErr < len(b.runs) {
			if n, most := x.runsSeen(), b.runs[x.firstErr]; n > most {
				bad([]string{"C12", "C09"}, "%d statements were transmitted after the connection had failed", n-most)
				return
			}
		}
	}
	x.effects(b, bad)
}

func (x *cutRun) effects(b *baseline, bad func([]string, string, ...interface{})) {
	count := map[string]int{}
	for _, e := range x.srv.Commits() {
		count[e]++
	}
	clean := map[string]int{}
	for _, e := range b.commits {
		clean[e]++
	}
	committed := -1
	for i, o := range x.out {
		if o.what == "Commit" && o.err == nil {
			committed = i
		}
	}
	for e, n := range count {
		if n > clean[e] && !strings.HasPrefix(e, "effect after") {
			bad([]string{"C13", "C12", "C11"}, "%q took effect %d times, without the fault %d times", e, n, clean[e])
			return
		}
	}
	for i, o := range x.out {
		if o.err == nil && strings.HasPrefix(o.what, "ExecNeo ") {
			e := "effect " + strings.TrimPrefix(o.what, "ExecNeo ")
			if clean[e] == 0 {
				continue
			}
			inTx := false
			for j := i; j >= 0; j-- {
				if x.out[j].what == "Commit" || x.out[j].what == "Rollback" {
					break
				}
				if x.out[j].what == "Begin" {
					inTx = x.out[j].err == nil
					break
				}
			}
			if (!inTx || committed > i) && count[e] == 0 {
				bad([]string{"C11", "C13"}, "%s was reported successful but never took effect", o.what)
				return
			}
		}
	}
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

type cutCase struct {
	p    *prog
	b    *baseline
	do   boltsrv.Action
	in   bool
	at   int64
	tls  bool
	open bool // stall while opening: needs the URL timeout
}

func faultCut(c *h.Ctx) {
	const suite = "fault.cut"
	c.Rule(suite, "thirteen fixed programs (exec, query, prepared, pipelines, commit, rollback, server failures, the same with ACK_FAILURE refused, refused BEGIN, COMMIT and ROLLBACK, close with open work, large values) are run with the connection closed, reset, silenced, or silenced and resumed late, after every N-th byte of the server's output and of the client's output; each call must give its clean result or an error, the first error must be driver.ErrBadConn, later calls must fail without transmitting, and committed effects must agree with what was reported; distinct by (program, direction, action, offset)")
	ps := progs()
	base := map[string]*baseline{}
	for _, p := range ps {
		b, problem := p.clean(c, suite, nil, "")
		if problem != "" {
			viol(c, suite, suite+"#clean", []string{"C11", "C12", "C10"}, problem)
			return
		}
		base[p.name] = b
	}
	var cases []cutCase
	for _, p := range ps {
		b := base[p.name]
		for _, in := range []bool{false, true} {
			total := b.bo
			if in {
				total = b.in
			}
			for _, do := range []boltsrv.Action{boltsrv.FIN, boltsrv.RST, boltsrv.Half, boltsrv.Late, boltsrv.Stall} {
				step := int64(1)
				if p.name == "big" {
					step = total / int64(c.Pick(40, 400))
				} else if do == boltsrv.Stall || do == boltsrv.RST || do == boltsrv.Half || in {
					step = int64(c.Pick(3, 1))
				}
				start := int64(0)
				if do == boltsrv.RST {
					start = 1 // at 0 it may hit the dial, before there is a connection
				}
				if do == boltsrv.Late || do == boltsrv.Stall {
					start = 40 // past handshake and INIT; opening is covered below
					if in {
						start = 90
					}
				}
				for at := start; at < total; at += step {
					cases = append(cases, cutCase{p: p, b: b, do: do, in: in, at: at})
				}
			}
		}
	}
	// silence while opening
	for at := int64(0); at < 36; at += int64(c.Pick(5, 1)) {
		cases = append(cases, cutCase{p: ps[0], b: base["exec"], do: boltsrv.Stall, at: at, open: true})
	}
	c.Count("fault.cut_points", int64(len(cases)))
	c.EachW(suite, len(cases), 48, func(w, i int, name string) {
		cutOne(c, suite, name, cases[i])
	})
	if c.Only == "" || c.Only == suite+"#bigwrite" {
		bigWrite(c, suite)
	}
}

func cutOne(c *h.Ctx, suite, name string, cc cutCase) {
	srv := cc.p.server()
	srv.Plans = func(n int) boltsrv.Plan {
		pl := boltsrv.NoFault()
		pl.Do = cc.do
		if cc.in {
			pl.In = cc.at
		} else {
			pl.Out = cc.at
		}
		return pl
	}
	if cc.tls {
		srv.TLS = tlsSetup().srvCfg
	}
	srv.Start()
	defer srv.Close()
	dir := "output"
	if cc.in {
		dir = "input"
	}
	desc := fmt.Sprintf("program %s, %s after %d bytes of server %s", cc.p.name, cc.do, cc.at, dir)
	x := newCutRun(c, suite, name, srv)
	timeout := time.Duration(0)
	if cc.do == boltsrv.Stall || cc.do == boltsrv.Late {
		timeout = shortTimeout
	}
	x.onError = func() {
		if cc.do == boltsrv.Late {
			for _, s := range srv.Sessions() {
				s.Release()
			}
			time.Sleep(2 * time.Millisecond)
		}
	}
	url := srv.URL()
	if cc.open {
		url += "?timeout=1"
	}
	if cc.tls {
		url += tlsSetup().suffix()
		desc = "TLS, " + desc
	}
	if x.open(url, timeout) {
		cc.p.run(x)
		if !x.stop && x.firstErr >= 0 {
			x.battery()
		}
		if !x.stop {
			x.call("close", "conn.Close", func() (interface{}, error) { return nil, x.conn.Close() })
		}
	}
	if !x.stop {
		for _, s := range srv.Sessions() {
			if !waitDone(s) {
				viol(c, suite, name, []string{"C26", "C14"}, desc+": the network connection was never closed")
				return
			}
		}
	}
	x.judge(cc.b, true, desc)
	if len(srv.Sessions()) > 1 {
		viol(c, suite, name, []string{"C12"}, desc+": another network connection was opened")
	}
	c.Eval(desc)
	c.Count("fault."+cc.do.String(), 1)
	c.SampleN(suite, 4, func() interface{} {
		e := ""
		if x.firstErr >= 0 {
			e = x.out[x.firstErr].what + ": " + firstLine(x.out[x.firstErr].err)
		}
		return map[string]interface{}{"suite": suite, "fault": desc, "first_error": e, "calls": len(x.out)}
	})
}

// bigWrite: the server stops reading, so the client's write must time out.
func bigWrite(c *h.Ctx, suite string) {
	name := suite + "#bigwrite"
	srv := boltsrv.New()
	srv.Handler = func(s *boltsrv.Session, q string, params interface{}) *boltsrv.Script { return simpleScript(q, 1) }
	hold := make(chan struct{})
	srv.OnRequest = func(s *boltsrv.Session, r *boltsrv.Request) {
		if r.Kind == "RUN" && r.Query == "hold" {
			<-hold
		}
	}
	srv.Plans = func(int) boltsrv.Plan { p := boltsrv.NoFault(); p.In, p.Do = 200000, boltsrv.Stop; return p }
	srv.Start()
	x := newCutRun(c, suite, name, srv)
	if x.open(srv.URL(), 0) {
		x.conn.SetTimeout(300 * time.Millisecond)
		x.exec("x", map[string]interface{}{"blob": strings.Repeat("p", 48<<20)})
		x.battery()
		if !x.stop {
			x.call("close", "conn.Close", func() (interface{}, error) { return nil, x.conn.Close() })
		}
	}
	close(hold)
	x.judge(&baseline{runs: []int{0, 1}}, true, "a write larger than the socket buffers to a server that stopped reading")
	if x.firstErr < 0 && !x.stop {
		c.Inconclusive("the 48 MB write did not block")
	}
	c.Eval("bigwrite")
	srv.Close()
}

// stuck: the server stops reading, a large write times out in the middle of a
// message, then the server reads on. The connection must not be used again.
func faultStuck(c *h.Ctx) {
	const suite = "fault.stuck"
	c.Rule(suite, "a server that stops reading while a statement far larger than the socket buffers is sent through each API, so that the write times out inside the message, and that reads on later; the call must fail with a bad connection error, no later call on the connection may succeed or put any byte on it, and pools and database/sql must go on with another connection. Distinct by API, chunk size and moment of reading on")
	kinds := []string{"exec", "query", "all", "stmt", "stmtquery", "pipe", "pipequery", "tx", "pool", "pooltx", "sql"}
	n := c.Pick(44, 400)
	c.Each(suite, n, func(w, i int, name string) {
		r := c.Rand(suite, i)
		kind := kinds[i%len(kinds)]
		early := i/len(kinds)%2 == 0
		cs := []uint16{65535, 0, 1000, 40000}[r.Intn(4)]
		desc := fmt.Sprintf("%s, chunk size %d, server reads on early %v", kind, cs, early)
		srv := boltsrv.New()
		const mark = "AfterTheFault"
		srv.Marker = []byte(mark)
		srv.Handler = func(s *boltsrv.Session, q string, params interface{}) *boltsrv.Script { return simpleScript(q, 1) }
		srv.Plans = func(n int) boltsrv.Plan {
			p := boltsrv.NoFault()
			if n == 0 {
				p.In, p.Do = 100000+int64(r.Intn(100000)), boltsrv.Stop
			}
			return p
		}
		srv.Start()
		defer srv.Close()
		bad := func(props []string, f string, a ...interface{}) {
			viol(c, suite, name, props, desc+": "+fmt.Sprintf(f, a...))
		}
		big := map[string]interface{}{"blob": strings.Repeat("p", 24<<20)}
		small := map[string]interface{}(nil)
		resume := func() {
			srv.Sessions()[0].Resume()
			// let the server take what is in the socket buffers
			time.Sleep(30 * time.Millisecond)
		}
		var err error
		var late []error
		o := h.Guard(hangTicks, srv.Activity, nil, func() {
			if kind == "sql" {
				db, e := sql.Open("neo4j-bolt", srv.URL()+"?timeout=1")
				if e != nil {
					err = e
					return
				}
				defer db.Close()
				db.SetMaxOpenConns(1)
				enc, _ := encoding.Marshal(big)
				_, err = db.Exec("big", enc)
				resume()
				if _, e := db.Exec(mark); e != nil {
					bad([]string{"C12"}, "database/sql did not go on with another connection: %s", firstLine(e))
				}
				return
			}
			var conn bolt.Conn
			var pool bolt.ClosableDriverPool
			if kind == "pool" || kind == "pooltx" {
				if pool, err = bolt.NewClosableDriverPool(srv.URL(), 1); err != nil {
					return
				}
				defer pool.Close()
				conn, err = pool.OpenPool()
			} else {
				conn, err = bolt.NewDriver().OpenNeo(srv.URL())
			}
			if err != nil {
				bad([]string{"C11"}, "opening failed: %s", firstLine(err))
				return
			}
			conn.SetChunkSize(cs)
			conn.SetTimeout(250 * time.Millisecond)
			var tx driver.Tx
			switch kind {
			case "query":
				_, err = conn.QueryNeo("big", big)
			case "all":
				_, _, _, err = conn.QueryNeoAll("big", big)
			case "stmt", "stmtquery":
				st, e := conn.PrepareNeo("big")
				if err = e; e == nil {
					if kind == "stmt" {
						_, err = st.ExecNeo(big)
					} else {
						_, err = st.QueryNeo(big)
					}
					st.Close()
				}
			case "pipe":
				_, err = conn.ExecPipeline([]string{"s", "big", "s"}, small, big, small)
			case "pipequery":
				_, err = conn.QueryPipeline([]string{"s", "big"}, small, big)
			case "tx", "pooltx":
				if tx, err = conn.Begin(); err == nil {
					_, err = conn.ExecNeo("big", big)
				}
			default:
				_, err = conn.ExecNeo("big", big)
			}
			if err == nil {
				conn.Close()
				return
			}
			if early {
				resume()
			}
			if tx != nil && r.Intn(2) == 0 {
				late = append(late, tx.Commit())
			}
			after := func() {
				_, e := conn.ExecNeo(mark, nil)
				late = append(late, e)
				_, _, _, e = conn.QueryNeoAll(mark, nil)
				late = append(late, e)
				_, e = conn.ExecPipeline([]string{mark}, nil)
				late = append(late, e)
				st, e := conn.PrepareNeo(mark)
				if e == nil {
					_, e = st.QueryNeo(nil)
					st.Close()
				}
				late = append(late, e)
			}
			after()
			if !early {
				resume()
				after()
			}
			conn.Close()
			if pool != nil {
				conn, e := pool.OpenPool()
				if e == nil {
					_, e = conn.ExecNeo("next user", nil)
					conn.Close()
				}
				if e != nil {
					bad([]string{"C12", "C16"}, "the pool did not go on with another connection: %s", firstLine(e))
				}
			}
		})
		if o.Bad() {
			bad([]string{"C11", "C12"}, "%s", o.String())
			return
		}
		if err == nil {
			c.Inconclusive("the write of 24 MB did not block")
			return
		}
		if innermost(err) != driver.ErrBadConn && kind != "sql" {
			bad([]string{"C11"}, "failed with innermost error %T (%s), not driver.ErrBadConn", innermost(err), firstLine(err))
		}
		for _, e := range late {
			if e == nil {
				bad([]string{"C12", "C11"}, "a call on the failed connection succeeded")
				return
			}
		}
		s := srv.Sessions()[0]
		if !waitDone(s) {
			bad([]string{"C26", "C12"}, "the network connection was never closed")
			return
		}
		if n := s.Marks(); n > 0 {
			bad([]string{"C12", "C09"}, "later calls were transmitted on the failed connection")
		}
		c.Eval(desc)
		c.Count("fault.write_timeouts", 1)
	})
}

// mangle ------------------------------------------------------------------------

type mangleCase struct {
	p    *prog
	b    *baseline
	req  int // request number on the session (INIT is 0)
	resp int // response within it
	kind string
}

func mangled(kind string, body []byte) [][]byte {
	enc := func(v interface{}) []byte { return ref.Encode(v) }
	raw := func(b []byte) []byte { return append([]byte{0xEF, 0xEF}, b...) }
	switch kind {
	case "garbage":
		return [][]byte{{0xDF, 0x01, 0x02}}
	case "unknown-struct":
		return [][]byte{{0xB1, 0x55, 0xA0}}
	case "truncated":
		if len(body) > 3 {
			return [][]byte{body[:len(body)-1]}
		}
		return [][]byte{body[:1]}
	case "number":
		return [][]byte{enc(int64(7))}
	case "node":
		return [][]byte{enc(ref.Struct{Sig: ref.SigNode, Fields: []interface{}{int64(1), []interface{}{"L"}, ref.Map{}}})}
	case "ignored":
		return [][]byte{{0xB0, ref.SigIgnored}}
	case "pull":
		return [][]byte{{0xB0, ref.SigPull}}
	case "swap": // a record where a summary belongs
		return [][]byte{enc(ref.Struct{Sig: ref.SigRecord, Fields: []interface{}{[]interface{}{"stray", int64(1)}}})}
	case "badmeta":
		return [][]byte{enc(ref.Struct{Sig: ref.SigSuccess, Fields: []interface{}{"not a map"}})}
	case "badsize":
		return [][]byte{{0xB1, ref.SigSuccess, 0xDA, 0xFF, 0xFF, 0x81, 'x'}}
	case "refused":
		return [][]byte{enc(ref.Struct{Sig: ref.SigFailure, Fields: []interface{}{ref.Map{"code": "Neo.ResetRefused", "message": "not reset"}}})}
	case "cutchunk": // a chunk header that swallows the following message
		return [][]byte{raw([]byte{0x00, 0x04, 0xB1, 0x70, 0x00, 0x00})}
	}
	panic(kind)
}

var mangleKinds = []string{"garbage", "unknown-struct", "truncated", "number", "node", "ignored", "pull", "swap", "badmeta", "badsize"}

func faultMangle(c *h.Ctx) {
	const suite = "fault.mangle"
	c.Rule(suite, "in the fixed programs each single response message of the server is replaced by an undecodable or out-of-place one (ten kinds, and a refused RESET); the call must report an error, no invented or shifted result may appear, and every later call must fail without transmitting; distinct by (program, request, response, kind)")
	var cases []mangleCase
	for _, p := range progs() {
		b, problem := p.clean(c, suite, nil, "")
		if problem != "" {
			viol(c, suite, suite+"#clean", []string{"C11", "C12", "C06"}, problem)
			return
		}
		srv := p.server()
		srv.Start()
		x := newCutRun(c, suite, p.name, srv)
		if x.open(srv.URL(), 0) {
			p.run(x)
			x.conn.Close()
			waitDone(srv.Sessions()[0])
			for i, r := range srv.Sessions()[0].Requests() {
				if i == 0 {
					continue
				}
				for j, resp := range r.Responses {
					for _, k := range mangleKinds {
						if k == "swap" && resp.Sig == ref.SigRecord {
							continue // just another row
						}
						if k == "swap" && r.Kind == "PULL_ALL" && resp.Sig != ref.SigIgnored {
							continue // one more row, then silence: a different fault
						}
						if k == "ignored" && (r.Kind == "ACK_FAILURE" || r.Kind == "RESET" || resp.Sig == ref.SigIgnored) {
							continue
						}
						if k == "ignored" && i > 0 && afterFailure(srv.Sessions()[0].Requests(), i) {
							continue
						}
						cases = append(cases, mangleCase{p, b, i, j, k})
					}
					if r.Kind == "RESET" {
						cases = append(cases, mangleCase{p, b, i, j, "refused"})
					}
				}
			}
		}
		srv.Close()
	}
	c.Count("fault.mangle_points", int64(len(cases)))
	stride := c.Pick(1, 1)
	c.EachW(suite, len(cases)/stride, 32, func(w, i int, name string) {
		mangleOne(c, suite, name, cases[i*stride])
	})
}

// afterFailure: request i was sent while the server was failing earlier ones.
func afterFailure(rs []*boltsrv.Request, i int) bool { return rs[i].State == "FAILED" }

func mangleOne(c *h.Ctx, suite, name string, mc mangleCase) {
	srv := mc.p.server()
	srv.Plans = func(int) boltsrv.Plan {
		pl := boltsrv.NoFault()
		pl.Mangle = func(r *boltsrv.Request, bodies [][]byte) [][]byte {
			if r.Seq != mc.req || mc.resp >= len(bodies) {
				return bodies
			}
			var out [][]byte
			for k, b := range bodies {
				if k == mc.resp {
					out = append(out, mangled(mc.kind, b)...)
				} else {
					out = append(out, b)
				}
			}
			return out
		}
		return pl
	}
	srv.Start()
	defer srv.Close()
	desc := fmt.Sprintf("program %s, response %d to request %d replaced (%s)", mc.p.name, mc.resp, mc.req, mc.kind)
	x := newCutRun(c, suite, name, srv)
	if x.open(srv.URL(), 0) {
		x.conn.SetTimeout(300 * time.Millisecond)
		mc.p.run(x)
		if !x.stop && x.firstErr >= 0 {
			x.battery()
		}
		if !x.stop {
			x.call("close", "conn.Close", func() (interface{}, error) { return nil, x.conn.Close() })
		}
	}
	if !x.stop {
		for _, s := range srv.Sessions() {
			if !waitDone(s) {
				viol(c, suite, name, []string{"C26", "C14"}, desc+": the network connection was never closed")
				return
			}
		}
		if x.firstErr < 0 {
			viol(c, suite, name, []string{"C06", "C12"}, desc+": no call reported an error")
			return
		}
	}
	x.judge(mc.b, false, desc)
	c.Eval(desc)
	c.Count("fault.mangle."+mc.kind, 1)
	c.SampleN(suite, 3, func() interface{} {
		e := ""
		if x.firstErr >= 0 {
			e = x.out[x.firstErr].what + ": " + firstLine(x.out[x.firstErr].err)
		}
		return map[string]interface{}{"suite": suite, "fault": desc, "first_error": e}
	})
}
