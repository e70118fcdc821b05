package suites

import (
	"database/sql/driver"
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"time"

	bolt "github.com/johnnadratowski/golang-neo4j-bolt-driver"

	"vf/boltsrv"
	"vf/h"
	"vf/ref"
)

func init() {
	register(Suite{Name: "pool.model", Props: []string{"C15", "C16", "C17", "C26", "C12", "C14", "C13", "C19"}, Run: poolModel})
}

// poolHandle is one checkout.
type poolHandle struct {
	id      int
	conn    bolt.Conn
	closed  bool
	sess    *boltsrv.Session
	killed  bool // its network connection was killed by the server
	broken  bool // a call on it has failed
	dirty   bool
	inTx    bool
	tx      driver.Tx
	work    []string // effects of what was done in the transaction
	rows    bolt.Rows
	stmt    bolt.Stmt
	oldTx   []driver.Tx
	oldRows []bolt.Rows
	oldStmt []bolt.Stmt
}

type waiter struct {
	done chan struct{}
	conn bolt.Conn
	err  error
	bad  h.Outcome
}

type poolHist struct {
	c           *h.Ctx
	suite, name string
	r           *rand.Rand
	srv         *boltsrv.Server
	pool        bolt.ClosableDriverPool
	max         int
	live        []*poolHandle
	dead        []*poolHandle
	waiters     []*waiter
	trace       []string
	nq          int
	stop        bool
	listening   bool
	closed      bool
	checkouts   int
	mu          sync.Mutex
	nextInit    string // fault for the next connection attempt
	seen        map[string]seenRun
	stale       bool // the failure depends on noticing a dead connection within its time
	what        string
	props       []string
	user, pw    string
	hanging     bool
	poisoned    map[string]bool // effects that must not happen
	wanted      map[string]bool
	idleKilled  bool
	begun       bool // a transaction was begun in this history
	armSess     *boltsrv.Session
	armOp       string // the next such request on armSess fails
	armLate     bool   // but only with the PULL_ALL
}

type seenRun struct {
	sess  *boltsrv.Session
	state string
	inTx  bool
	n     int
}

func (x *poolHist) log(f string, a ...interface{}) {
	if len(x.trace) < 300 {
		x.trace = append(x.trace, fmt.Sprintf(f, a...))
	}
}

func (x *poolHist) fail(props []string, f string, a ...interface{}) {
	if x.stop {
		return
	}
	x.stop = true
	x.what, x.props = fmt.Sprintf(f, a...), props
}

// withTx adds the transaction property where transactions were in play.
func (x *poolHist) withTx(props ...string) []string {
	if x.begun {
		props = append(props, "C13")
	}
	return props
}

func (x *poolHist) guard(what string, props []string, fn func()) bool {
	if x.stop {
		return false
	}
	x.log("%s", what)
	x.c.Count("pool.calls", 1)
	o := h.Guard(hangTicks, x.srv.Activity, nil, fn)
	if o.Panic != nil {
		x.fail(append(props, "C14", "C15"), "%s: %s", what, o.String())
		return false
	}
	if o.Hung {
		x.hanging = true
		x.fail(append(props, "C15"), "%s did not return", what)
		return false
	}
	return true
}

func (x *poolHist) text(kind string) string {
	x.nq++
	return fmt.Sprintf("%s %s q%d", kind, x.name, x.nq)
}

func (x *poolHist) handler(s *boltsrv.Session, q string, params interface{}) *boltsrv.Script {
	sc := &boltsrv.Script{RunMeta: ref.Map{"fields": []interface{}{"a"}}, PullMeta: ref.Map{"of": q}, Effect: "effect " + q}
	for i := 0; i < 5; i++ {
		sc.Rows = append(sc.Rows, []interface{}{fmt.Sprintf("%s row %d", q, i)})
	}
	switch {
	case strings.HasPrefix(q, "failrun"):
		sc.FailRun = failMeta(q)
	case strings.HasPrefix(q, "failpull"):
		sc.FailPull, sc.FailPullAt = failMeta(q), 3
	}
	return sc
}

func (x *poolHist) onRequest(s *boltsrv.Session, r *boltsrv.Request) {
	if r.Kind != "RUN" {
		return
	}
	x.mu.Lock()
	e := x.seen[r.Query]
	e.n++
	e.sess, e.state, e.inTx = s, r.State, r.InTx
	x.seen[r.Query] = e
	x.mu.Unlock()
}

// arm makes the next BEGIN, COMMIT or ROLLBACK on a handle fail, sometimes.
func (x *poolHist) arm(hd *poolHandle, op string) bool {
	k := x.r.Intn(5)
	if k > 1 || hd.sess == nil || hd.killed || hd.broken {
		return false
	}
	x.mu.Lock()
	x.armSess, x.armOp, x.armLate = hd.sess, op, k == 1
	x.mu.Unlock()
	return true
}

// disarm tells whether the failure came about.
func (x *poolHist) disarm() bool {
	x.mu.Lock()
	defer x.mu.Unlock()
	done := x.armSess != nil && x.armOp == ""
	x.armSess, x.armOp = nil, ""
	return done
}

func (x *poolHist) txFail(s *boltsrv.Session, op string) ref.Map {
	x.mu.Lock()
	defer x.mu.Unlock()
	if s != x.armSess || op != x.armOp {
		return nil
	}
	x.armOp = ""
	x.c.Count("pool.tx_requests_failed", 1)
	return failMeta(op)
}

func (x *poolHist) txFailLate(s *boltsrv.Session, op string) bool {
	x.mu.Lock()
	defer x.mu.Unlock()
	return x.armLate
}

func (x *poolHist) plan(n int) boltsrv.Plan {
	x.mu.Lock()
	k := x.nextInit
	x.nextInit = ""
	x.mu.Unlock()
	pl := boltsrv.NoFault()
	switch k {
	case "refuse":
		pl.Refuse, pl.Do = true, boltsrv.FIN
	case "version":
		pl.Version = []byte{0, 0, 0, 0}
	case "version2":
		pl.Version = []byte{0, 0, 0, 2}
	case "auth":
		pl.Init = [][]byte{ref.Encode(ref.Struct{Sig: ref.SigFailure, Fields: []interface{}{ref.Map{"code": "Neo.ClientError.Security.Unauthorized", "message": "no"}}})}
	case "garbage":
		pl.RawInit = []byte{0, 3, 0xDF, 1, 2, 0, 0}
	case "ignored":
		pl.Init = [][]byte{{0xB0, ref.SigIgnored}}
	case "record":
		pl.Init = [][]byte{ref.Encode(ref.Struct{Sig: ref.SigRecord, Fields: []interface{}{[]interface{}{int64(1)}}})}
	case "cutinit":
		pl.Out, pl.Do = 9, boltsrv.FIN
	case "rst":
		pl.Out, pl.Do = 4, boltsrv.RST
	case "half":
		pl.Out, pl.Do = int64(4+n%12), boltsrv.Half
	}
	return pl
}

var initFaults = []string{"refuse", "version", "version2", "auth", "garbage", "ignored", "record", "cutinit", "rst", "half"}

// liveSessions counts the connections the server still has open.
func (x *poolHist) liveSessions() int {
	n := 0
	for _, s := range x.srv.Sessions() {
		select {
		case <-s.Done():
		default:
			n++
		}
	}
	return n
}

// settle waits until at most n connections are open.
func (x *poolHist) settle(n int) bool {
	since := h.Ticks()
	for x.liveSessions() > n {
		if h.Ticks()-since > hangTicks {
			return false
		}
		time.Sleep(time.Millisecond)
	}
	return true
}

// checkout takes a connection that must be available.
func (x *poolHist) checkout(expectErr bool) *poolHandle {
	var cn bolt.Conn
	var err error
	if !x.guard(fmt.Sprintf("OpenPool (%d of %d out)", len(x.live), x.max), []string{"C15", "C16"}, func() { cn, err = x.pool.OpenPool() }) {
		return nil
	}
	if expectErr {
		if err == nil {
			// it may have had a live idle connection
			return x.admit(cn)
		}
		if cn != nil && fmt.Sprintf("%v", cn) != "<nil>" {
			x.fail([]string{"C15", "C19"}, "OpenPool returned both a connection and an error")
		}
		x.c.Count("pool.failed_opens", 1)
		if !x.settle(x.max) {
			x.fail([]string{"C26", "C15"}, "%d network connections open after a failed checkout, pool size %d", x.liveSessions(), x.max)
		}
		return nil
	}
	if err != nil {
		x.fail([]string{"C15", "C16"}, "OpenPool failed although the server accepts connections: %s", firstLine(err))
		return nil
	}
	return x.admit(cn)
}

// admit checks a connection just checked out with a first request.
func (x *poolHist) admit(cn bolt.Conn) *poolHandle {
	if cn == nil {
		x.fail([]string{"C15", "C16", "C19"}, "OpenPool returned neither connection nor error")
		return nil
	}
	x.checkouts++
	hd := &poolHandle{id: x.checkouts, conn: cn}
	x.live = append(x.live, hd)
	if len(x.live) > x.max {
		x.fail([]string{"C15"}, "%d connections checked out of a pool of %d", len(x.live), x.max)
		return nil
	}
	x.c.Count("pool.checkouts", 1)
	q := x.text("first")
	var err error
	var d [][]interface{}
	kind := x.r.Intn(4)
	ok := x.guard(fmt.Sprintf("handle %d first request (%d)", hd.id, kind), []string{"C16"}, func() {
		switch kind {
		case 0, 1:
			d, _, _, err = cn.QueryNeoAll(q, nil)
		case 2:
			var st bolt.Stmt
			if st, err = cn.PrepareNeo(q); err == nil {
				var rows bolt.Rows
				if rows, err = st.QueryNeo(nil); err == nil {
					d, _, err = rows.All()
				}
				st.Close()
			}
		case 3:
			var tx driver.Tx
			if tx, err = cn.Begin(); err == nil {
				if d, _, _, err = cn.QueryNeoAll(q, nil); err == nil {
					err = tx.Commit()
				}
			}
		}
	})
	if !ok {
		return nil
	}
	if err != nil {
		x.stale = x.idleKilled
		x.fail(x.withTx("C16", "C12", "C15"), "the first request on handle %d just checked out failed: %s", hd.id, firstLine(err))
		return nil
	}
	if len(d) != 5 || fmt.Sprint(d[0]) != fmt.Sprintf("[%s row 0]", q) {
		x.fail(x.withTx("C16", "C12"), "the first request on handle %d got %v", hd.id, d)
		return nil
	}
	x.mu.Lock()
	e := x.seen[q]
	x.mu.Unlock()
	if e.n != 1 {
		x.fail([]string{"C16", "C12"}, "the first request was transmitted %d times", e.n)
		return nil
	}
	if e.state != "READY" || (e.inTx != (kind == 3)) || !e.sess.Inited() {
		x.fail([]string{"C16", "C13"}, "handle %d was handed out with its session in state %s, in transaction %v, initialized %v", hd.id, e.state, e.inTx && kind != 3, e.sess.Inited())
		return nil
	}
	for _, o := range x.live {
		if o != hd && o.sess == e.sess {
			x.fail([]string{"C15"}, "handles %d and %d use the same network connection", o.id, hd.id)
			return nil
		}
	}
	hd.sess = e.sess
	x.wanted["effect "+q] = true
	in := e.sess.Requests()[0]
	wantAuth := ref.Map{"scheme": "none"}
	if x.user != "" {
		wantAuth = ref.Map{"scheme": "basic", "principal": x.user, "credentials": x.pw}
	}
	if eq, why := ref.Equal(in.Fields, []interface{}{bolt.ClientID, map[string]interface{}(wantAuth)}); !eq {
		x.fail([]string{"C16", "C19"}, "INIT carried %v: %s", in.Fields, why)
		return nil
	}
	return hd
}

// use leaves a handle in some state.
func (x *poolHist) use(hd *poolHandle) {
	if hd.broken {
		q := x.text("onbroken")
		var err error
		x.guard(fmt.Sprintf("handle %d exec on failed connection", hd.id), []string{"C12"}, func() { _, err = hd.conn.ExecNeo(q, nil) })
		if err == nil && !x.stop {
			x.fail([]string{"C12", "C14"}, "an exec on a connection that had failed succeeded")
		}
		return
	}
	if hd.dirty { // an open statement: only the guard can answer
		var err error
		if hd.rows != nil && x.r.Intn(2) == 0 {
			x.guard(fmt.Sprintf("handle %d next row", hd.id), []string{"C15"}, func() { _, _, err = hd.rows.NextNeo() })
			return
		}
		q := x.text("guarded")
		x.guard(fmt.Sprintf("handle %d exec while a statement is open", hd.id), []string{"C14"}, func() { _, err = hd.conn.ExecNeo(q, nil) })
		if err == nil && !x.stop {
			x.fail([]string{"C14"}, "an exec while another statement was open succeeded")
		}
		return
	}
	var err error
	kind := x.r.Intn(9)
	q := x.text("use")
	wantErr := false
	what := ""
	ok := true
	switch kind {
	case 0, 1:
		what = "exec"
		ok = x.guard(fmt.Sprintf("handle %d exec", hd.id), []string{"C15"}, func() { _, err = hd.conn.ExecNeo(q, nil) })
		if err == nil && !hd.inTx {
			x.wanted["effect "+q] = true
		} else {
			x.poisoned["effect "+q] = hd.inTx
			if err == nil {
				hd.work = append(hd.work, "effect "+q)
			}
		}
	case 2:
		what = "query left open"
		ok = x.guard(fmt.Sprintf("handle %d query, leave rows open", hd.id), []string{"C15"}, func() {
			var rows bolt.Rows
			if rows, err = hd.conn.QueryNeo(q, nil); err == nil {
				hd.rows = rows
			}
			for i := x.r.Intn(4); i > 0 && err == nil; i-- {
				_, _, err = hd.rows.NextNeo()
			}
		})
		hd.dirty = err == nil
	case 3:
		what = "failing exec"
		wantErr = true
		q = x.text("failrun")
		ok = x.guard(fmt.Sprintf("handle %d failing exec", hd.id), []string{"C15"}, func() { _, err = hd.conn.ExecNeo(q, nil) })
	case 4:
		what = "failing query left open"
		q = x.text("failpull")
		ok = x.guard(fmt.Sprintf("handle %d failing query, leave rows open", hd.id), []string{"C15"}, func() {
			var rows bolt.Rows
			if rows, err = hd.conn.QueryNeo(q, nil); err == nil {
				hd.rows = rows
			}
			for i := x.r.Intn(3); i > 0 && err == nil; i-- {
				_, _, err = hd.rows.NextNeo()
			}
		})
		hd.dirty = err == nil
	case 5, 6:
		if hd.inTx {
			what = "work in transaction"
			q = x.text("intx")
			if x.r.Intn(3) == 0 {
				x.endTx(hd)
				return
			}
			ok = x.guard(fmt.Sprintf("handle %d exec in transaction", hd.id), []string{"C15"}, func() { _, err = hd.conn.ExecNeo(q, nil) })
			x.poisoned["effect "+q] = true
			if err == nil {
				hd.work = append(hd.work, "effect "+q)
			}
			break
		}
		what = "begin"
		x.arm(hd, "BEGIN")
		ok = x.guard(fmt.Sprintf("handle %d begin", hd.id), []string{"C15"}, func() { hd.tx, err = hd.conn.Begin() })
		wantErr = x.disarm()
		hd.inTx, hd.work = err == nil, nil
		x.begun = x.begun || err == nil
		if err == nil {
			hd.oldTx = append(hd.oldTx, hd.tx)
		}
	case 7:
		what = "prepared query left open"
		ok = x.guard(fmt.Sprintf("handle %d prepared query, leave open", hd.id), []string{"C15"}, func() {
			var st bolt.Stmt
			if st, err = hd.conn.PrepareNeo(q); err == nil {
				hd.stmt = st
			}
			if err == nil && x.r.Intn(3) > 0 {
				var rows bolt.Rows
				if rows, err = hd.stmt.QueryNeo(nil); err == nil {
					hd.rows = rows
				}
				if err == nil && x.r.Intn(2) == 0 {
					_, _, err = hd.rows.NextNeo()
				}
			}
		})
		hd.dirty = true
	case 8:
		what = "pipeline left open"
		ok = x.guard(fmt.Sprintf("handle %d pipeline, leave open", hd.id), []string{"C15"}, func() {
			var pr bolt.PipelineRows
			pr, err = hd.conn.QueryPipeline([]string{q, x.text("failrun"), x.text("use")}, nil, nil, nil)
			for i := x.r.Intn(4); i > 0 && err == nil; i-- {
				_, _, _, err = pr.NextPipeline()
			}
		})
		hd.dirty = err == nil
	}
	if hd.rows != nil {
		hd.oldRows = append(hd.oldRows, hd.rows)
	}
	if hd.stmt != nil {
		hd.oldStmt = append(hd.oldStmt, hd.stmt)
	}
	if !ok {
		return
	}
	_, isFail := failureMeta(err)
	if hd.killed {
		if err == nil && kind < 7 {
			x.fail([]string{"C11", "C12"}, "%s succeeded on a connection the server had closed", what)
			return
		}
		hd.broken = err != nil
		return
	}
	if hd.inTx && kind >= 0 && isFail {
		return // the transaction failed earlier: anything may fail in it now
	}
	if err != nil && !wantErr && !(isFail && kind == 8) {
		x.fail(x.withTx("C15", "C16", "C12"), "%s on handle %d failed: %s", what, hd.id, firstLine(err))
	}
	if err == nil && wantErr {
		x.fail([]string{"C10"}, "%s on handle %d succeeded", what, hd.id)
	}
}

// endTx commits or rolls back the transaction of a handle, which may fail.
func (x *poolHist) endTx(hd *poolHandle) {
	op, call := "COMMIT", hd.tx.Commit
	if x.r.Intn(3) == 0 {
		op, call = "ROLLBACK", hd.tx.Rollback
	}
	x.arm(hd, op)
	var err error
	ok := x.guard(fmt.Sprintf("handle %d %s", hd.id, op), []string{"C13", "C15"}, func() { err = call() })
	armed := x.disarm()
	hd.inTx, hd.tx = false, nil
	work := hd.work
	hd.work = nil
	if !ok {
		return
	}
	if hd.killed {
		hd.broken = err != nil
		if err == nil {
			x.fail([]string{"C11", "C13"}, "%s succeeded on a connection the server had closed", op)
		}
		return
	}
	if armed && err == nil {
		x.fail([]string{"C10", "C13"}, "%s on handle %d succeeded although the server failed it", op, hd.id)
		return
	}
	if err != nil && !armed {
		if _, isFail := failureMeta(err); !isFail {
			x.fail([]string{"C13", "C15"}, "%s on handle %d failed: %s", op, hd.id, firstLine(err))
		}
		return // the transaction had failed before
	}
	if err == nil && op == "COMMIT" {
		for _, e := range work {
			delete(x.poisoned, e)
			x.wanted[e] = true
		}
	}
}

// close returns a handle to the pool.
func (x *poolHist) closeHandle(i int) {
	hd := x.live[i]
	// whoever waits may get the connection as soon as it's returned
	x.live = append(append([]*poolHandle{}, x.live[:i]...), x.live[i+1:]...)
	var err error
	if hd.inTx {
		x.arm(hd, "ROLLBACK")
	}
	if !x.guard(fmt.Sprintf("handle %d Close", hd.id), []string{"C15"}, func() { err = hd.conn.Close() }) {
		return
	}
	x.disarm()
	hd.closed = true
	x.dead = append(x.dead, hd)
	if err != nil && !hd.killed && !hd.broken && !hd.dirty && !hd.inTx {
		x.fail(x.withTx("C14", "C15"), "closing clean handle %d: %s", hd.id, firstLine(err))
		return
	}
	if hd.killed {
		x.idleKilled = true
	}
	if x.r.Intn(3) == 0 {
		x.useDead(hd)
	}
	x.serveWaiter()
}

func (x *poolHist) serveWaiter() {
	if len(x.waiters) == 0 || x.stop {
		return
	}
	// one of the waiters must proceed
	since := h.Ticks()
	act := x.srv.Activity()
	for {
		for i, w := range x.waiters {
			select {
			case <-w.done:
				x.waiters = append(append([]*waiter{}, x.waiters[:i]...), x.waiters[i+1:]...)
				x.log("a waiting OpenPool returned: err=%v", w.err != nil)
				if w.bad.Panic != nil {
					x.fail([]string{"C15"}, "OpenPool: %s", w.bad.String())
					return
				}
				if w.err != nil {
					x.fail([]string{"C15", "C16"}, "a waiting OpenPool failed although a connection was returned: %s", firstLine(w.err))
					return
				}
				x.c.Count("pool.waiters_served", 1)
				x.admit(w.conn)
				return
			default:
			}
		}
		if a := x.srv.Activity(); a != act {
			act, since = a, h.Ticks()
		}
		if h.Ticks()-since > hangTicks {
			x.hanging = true
			x.fail([]string{"C15"}, "a connection was returned but a waiting OpenPool did not proceed")
			return
		}
		time.Sleep(time.Millisecond)
	}
}

func (x *poolHist) wait() {
	if len(x.waiters) >= 3 {
		return
	}
	w := &waiter{done: make(chan struct{})}
	go func() {
		defer close(w.done)
		w.bad = h.Direct(func() { w.conn, w.err = x.pool.OpenPool() })
	}()
	x.log("OpenPool with none available")
	t := h.Ticks()
	for h.Ticks()-t < 3 {
		select {
		case <-w.done:
			x.fail([]string{"C15"}, "OpenPool returned (err=%v) with %d of %d connections checked out", w.err, len(x.live), x.max)
			return
		case <-time.After(time.Millisecond):
		}
	}
	x.c.Count("pool.blocked_checkouts", 1)
	x.waiters = append(x.waiters, w)
}

// useDead uses a handle, and what came from it, after it was closed.
func (x *poolHist) useDead(hd *poolHandle) {
	var err error
	k := x.r.Intn(9)
	q := x.text("dead")
	x.poisoned["effect "+q] = true
	what := ""
	ok := x.guard(fmt.Sprintf("closed handle %d (%d)", hd.id, k), []string{"C14", "C15"}, func() {
		switch k {
		case 0:
			what = "ExecNeo"
			_, err = hd.conn.ExecNeo(q, nil)
		case 1:
			what = "QueryNeo"
			_, err = hd.conn.QueryNeo(q, nil)
		case 2:
			what = "Begin"
			_, err = hd.conn.Begin()
		case 3:
			what = "PrepareNeo"
			var st bolt.Stmt
			if st, err = hd.conn.PrepareNeo(q); err == nil {
				_, err = st.ExecNeo(nil)
			}
		case 4:
			what = "ExecPipeline"
			_, err = hd.conn.ExecPipeline([]string{q}, nil)
		case 5:
			what = "old transaction"
			err = fmt.Errorf("none")
			for _, t := range hd.oldTx {
				if x.r.Intn(2) == 0 {
					err = t.Commit()
				} else {
					err = t.Rollback()
				}
			}
		case 6:
			what = "old rows"
			err = fmt.Errorf("none")
			for _, r := range hd.oldRows {
				_, _, err = r.NextNeo()
				r.Close()
			}
		case 7:
			what = "old statement"
			err = fmt.Errorf("none")
			for _, s := range hd.oldStmt {
				_, err = s.ExecNeo(nil)
				s.Close()
			}
		case 8:
			what = "Close"
			hd.conn.Close()
			err = fmt.Errorf("none")
		}
	})
	if !ok {
		return
	}
	if err == nil {
		x.fail([]string{"C14", "C15"}, "%s on handle %d after it was closed succeeded", what, hd.id)
		return
	}
	x.mu.Lock()
	n := x.seen[q].n
	x.mu.Unlock()
	if n > 0 {
		x.fail([]string{"C14", "C15"}, "%s on closed handle %d reached the server", what, hd.id)
	}
	x.c.Count("pool.dead_uses", 1)
}

func (x *poolHist) killOne(idle bool) {
	inUse := map[*boltsrv.Session]*poolHandle{}
	for _, hd := range x.live {
		inUse[hd.sess] = hd
	}
	for _, s := range x.srv.Sessions() {
		select {
		case <-s.Done():
			continue
		default:
		}
		hd := inUse[s]
		if (hd == nil) != idle || x.r.Intn(2) == 0 {
			continue
		}
		a := []boltsrv.Action{boltsrv.FIN, boltsrv.RST, boltsrv.Half}[x.r.Intn(3)]
		x.log("server kills (%s) session %d, idle %v", a, s.ID, idle)
		s.Kill(a)
		if a != boltsrv.Half { // that one lasts until the client closes its side
			s.Wait(5 * time.Second)
		}
		time.Sleep(2 * time.Millisecond)
		if hd != nil {
			hd.killed = true
		} else {
			x.idleKilled = true
		}
		x.c.Count("pool.kills", 1)
		return
	}
}

func (x *poolHist) step() {
	if x.stop {
		return
	}
	switch k := x.r.Intn(20); {
	case k < 5:
		if len(x.live) < x.max {
			x.checkout(!x.listening)
		} else if x.listening {
			x.wait()
		}
	case k < 9:
		if len(x.live) > 0 {
			x.use(x.live[x.r.Intn(len(x.live))])
		}
	case k < 13:
		if len(x.live) > 0 && (x.listening || len(x.waiters) == 0) {
			x.closeHandle(x.r.Intn(len(x.live)))
		}
	case k < 15:
		if len(x.dead) > 0 {
			x.useDead(x.dead[x.r.Intn(len(x.dead))])
		}
	case k < 16:
		x.killOne(true)
	case k < 17:
		x.killOne(false)
	case k < 18:
		if len(x.live) < x.max && len(x.waiters) == 0 && x.listening {
			x.mu.Lock()
			x.nextInit = initFaults[x.r.Intn(len(initFaults))]
			x.log("next connection attempt: %s", x.nextInit)
			x.mu.Unlock()
			x.checkout(true)
			x.mu.Lock()
			x.nextInit = ""
			x.mu.Unlock()
		}
	case k < 19:
		if len(x.waiters) > 0 {
			return
		}
		if x.listening && x.r.Intn(3) == 0 {
			x.log("server stops listening")
			x.srv.StopListening()
			x.listening = false
		} else if !x.listening {
			x.log("server listens again")
			if x.srv.Relisten() != nil {
				x.stop = true
				return
			}
			x.listening = true
		}
	default:
		if len(x.live) > 0 {
			x.stallOne()
		}
	}
	if !x.stop && !x.settle(x.max) {
		x.fail([]string{"C15", "C26"}, "%d network connections are open, pool size %d", x.liveSessions(), x.max)
	}
}

// stallOne makes a call time out.
func (x *poolHist) stallOne() {
	hd := x.live[x.r.Intn(len(x.live))]
	if hd.broken || hd.killed || hd.dirty {
		return
	}
	q := x.text("stalled")
	x.poisoned["effect "+q] = hd.inTx
	hd.sess.Kill(boltsrv.Stall)
	hd.killed = true
	hd.conn.SetTimeout(20 * time.Millisecond)
	var err error
	if !x.guard(fmt.Sprintf("handle %d exec, server silent", hd.id), []string{"C11", "C12"}, func() { _, err = hd.conn.ExecNeo(q, nil) }) {
		return
	}
	if err == nil {
		x.fail([]string{"C11"}, "an exec without any response succeeded")
		return
	}
	hd.broken = true
	hd.conn.SetTimeout(60 * time.Second)
	x.c.Count("pool.timeouts", 1)
}

// drain: exactly max connections can be checked out.
func (x *poolHist) slots() {
	if !x.listening {
		if x.srv.Relisten() != nil {
			x.stop = true
			return
		}
		x.listening = true
	}
	for len(x.waiters) > 0 && !x.stop {
		if len(x.live) == 0 {
			x.fail([]string{"C15"}, "checkouts wait although no connection is checked out")
			return
		}
		x.closeHandle(x.r.Intn(len(x.live)))
	}
	for len(x.live) > 0 && !x.stop && x.r.Intn(4) > 0 {
		x.closeHandle(x.r.Intn(len(x.live)))
	}
	for len(x.live) < x.max && !x.stop {
		x.checkout(false)
	}
	if x.stop {
		return
	}
	x.wait()
	if !x.stop && len(x.live) > 0 {
		x.closeHandle(0)
	}
}

func (x *poolHist) closePool() {
	nw := x.r.Intn(3)
	if len(x.live) == x.max {
		for i := 0; i < nw && !x.stop; i++ {
			x.wait()
		}
	}
	if x.r.Intn(2) == 0 {
		x.killOne(x.r.Intn(2) == 0)
	}
	if x.stop {
		return
	}
	var err error
	if !x.guard(fmt.Sprintf("pool Close with %d out, %d waiting", len(x.live), len(x.waiters)), []string{"C17"}, func() { err = x.pool.Close() }) {
		return
	}
	_ = err
	x.closed = true
	for _, w := range x.waiters {
		since := h.Ticks()
	loop:
		for {
			select {
			case <-w.done:
				break loop
			case <-time.After(time.Millisecond):
			}
			if h.Ticks()-since > hangTicks {
				x.hanging = true
				x.fail([]string{"C17", "C18"}, "an OpenPool that was waiting when the pool was closed did not return")
				return
			}
		}
		if w.bad.Panic != nil {
			x.fail([]string{"C17"}, "OpenPool waiting while the pool was closed: %s", w.bad.String())
			return
		}
		if w.err == nil {
			x.fail([]string{"C17"}, "an OpenPool that was waiting when the pool was closed succeeded")
			return
		}
		x.c.Count("pool.waiters_released", 1)
	}
	if !x.settle(0) {
		x.fail([]string{"C17", "C26"}, "%d network connections are still open after the pool was closed (%d checked out)", x.liveSessions(), len(x.live))
		return
	}
	// Only now has the server seen all that was sent before
	deadRuns := len(x.allRuns())
	late := func() {
		for k := 1 + x.r.Intn(2*x.max+2); k > 0 && !x.stop; k-- {
			var cn bolt.Conn
			if !x.guard("OpenPool on a closed pool", []string{"C17"}, func() { cn, err = x.pool.OpenPool() }) {
				return
			}
			if err == nil {
				x.fail([]string{"C17"}, "OpenPool on a closed pool succeeded: %v", cn != nil)
			}
			x.c.Count("pool.refused_after_close", 1)
		}
	}
	late()
	for len(x.live) > 0 && !x.stop {
		hd := x.live[0]
		if x.r.Intn(2) == 0 {
			q := x.text("afterclose")
			x.guard(fmt.Sprintf("handle %d exec after the pool was closed", hd.id), []string{"C17"}, func() { _, err = hd.conn.ExecNeo(q, nil) })
			if err == nil && !x.stop {
				x.fail([]string{"C17"}, "an exec on handle %d succeeded after the pool was closed", hd.id)
			}
		}
		x.live = x.live[1:]
		x.guard(fmt.Sprintf("handle %d Close after the pool was closed", hd.id), []string{"C17"}, func() { hd.conn.Close() })
		late()
		if x.r.Intn(2) == 0 {
			x.guard("second pool Close", []string{"C17"}, func() { x.pool.Close() })
		}
	}
	x.guard("pool Close again", []string{"C17"}, func() { x.pool.Close() })
	late()
	if !x.stop && !x.settle(0) {
		x.fail([]string{"C17", "C26"}, "%d network connections are open after the pool was closed and its handles returned", x.liveSessions())
	}
	if n := len(x.allRuns()); n != deadRuns && !x.stop {
		x.fail([]string{"C17"}, "%d statements reached the server after the pool was closed", n-deadRuns)
	}
}

func (x *poolHist) allRuns() []string {
	var out []string
	for _, s := range x.srv.Sessions() {
		for _, r := range s.Requests() {
			if r.Kind == "RUN" {
				out = append(out, r.Query)
			}
		}
	}
	return out
}

func (x *poolHist) after() {
	if x.stop {
		return
	}
	for _, b := range x.srv.Breaches() {
		x.fail(x.withTx("C09", "C16", "C15"), "protocol breach: %s %s", b.Kind, b.What)
		return
	}
	count := map[string]int{}
	for _, e := range x.srv.Commits() {
		count[e]++
		if count[e] > 1 {
			x.fail([]string{"C12", "C13"}, "%q took effect %d times", e, count[e])
		}
		if x.poisoned[e] {
			x.fail([]string{"C13", "C16"}, "%q, done in a transaction that was never committed or on a closed handle, took effect", e)
		}
	}
	for e := range x.wanted {
		if count[e] != 1 {
			x.fail([]string{"C16", "C13"}, "%q was reported done but took effect %d times", e, count[e])
		}
	}
	seen := map[string]bool{}
	for _, q := range x.allRuns() {
		if q == "BEGIN" || q == "COMMIT" || q == "ROLLBACK" {
			continue
		}
		if seen[q] {
			x.fail([]string{"C12"}, "%q was transmitted twice", q)
		}
		seen[q] = true
	}
}

func poolRun(c *h.Ctx, suite, name string, i int) *poolHist {
	r := c.Rand(suite, i)
	x := &poolHist{c: c, suite: suite, name: name, r: r, srv: boltsrv.New(), max: 1 + r.Intn(4), listening: true, seen: map[string]seenRun{}, poisoned: map[string]bool{}, wanted: map[string]bool{}}
	x.srv.Handler = x.handler
	x.srv.TxFail, x.srv.TxFailPull = x.txFail, x.txFailLate
	x.srv.OnRequest = x.onRequest
	x.srv.Plans = x.plan
	x.srv.Frag = []int{0, 0, 1}[r.Intn(3)]
	x.srv.Seed = int64(i)
	suffix := ""
	if i%10 == 7 {
		e := tlsSetup()
		x.srv.TLS, suffix = e.srvCfg, e.suffix()
		x.log("over TLS")
		c.Count("pool.tls", 1)
	}
	x.srv.Start()
	url := x.srv.URL() + suffix
	if r.Intn(2) == 0 {
		x.user, x.pw = "u", "p"
		url = "bolt://u:p@" + x.srv.Addr() + suffix
	}
	var err error
	if x.guard(fmt.Sprintf("NewClosableDriverPool(%d)", x.max), []string{"C15"}, func() { x.pool, err = bolt.NewClosableDriverPool(url, x.max) }) {
		if err != nil {
			x.fail([]string{"C15", "C19"}, "NewClosableDriverPool failed: %s", firstLine(err))
		}
		short := i%8 == 5 // closed early: unopened, unused or partly opened
		steps := 8 + r.Intn(40)
		if short {
			steps = r.Intn(4)
		}
		for k := steps; k > 0 && !x.stop; k-- {
			x.step()
		}
		if short {
			x.c.Count("pool.closed_early", 1)
			if !x.listening && x.srv.Relisten() == nil {
				x.listening = true
			}
		} else {
			x.slots()
		}
		if !short && r.Intn(2) == 0 {
			for k := r.Intn(6); k > 0 && !x.stop; k-- {
				x.step()
			}
		}
		if !x.stop {
			x.closePool()
		}
		x.after()
	}
	if x.hanging {
		go x.srv.Close()
	} else {
		x.srv.Close()
	}
	return x
}

func poolModel(c *h.Ctx) {
	const suite = "pool.model"
	c.Rule(suite, "histories of 8-50 operations on a pool of 1-4 connections: checkouts (available, blocking), use leaving open rows, statements, pipelines, failed queries and transactions behind, closes, repeated closes, use of closed handles and of what came from them, servers that kill idle or used connections, go silent, refuse, reject or garble the opening or stop listening; then exactly max checkouts must succeed and one more must wait (left out in every eighth, which is closed after 0-3 operations), and the pool is closed with handles out and checkouts waiting. A first request follows every checkout. Distinct by history trace")
	n := c.Pick(1500, 20000)
	c.EachW(suite, n, 12, func(w, i int, name string) {
		x := poolRun(c, suite, name, i)
		c.Eval(strings.Join(x.trace, ";"))
		c.SampleN(suite, 2, func() interface{} {
			return map[string]interface{}{"suite": suite, "case": name, "max": x.max, "trace": x.trace}
		})
		if x.what == "" {
			return
		}
		if x.stale {
			// the driver looks for at most a millisecond whether an idle
			// connection is dead, so an overloaded machine can make it miss
			for k := 0; k < 4; k++ {
				y := poolRun(c, suite, name, i)
				if y.what == "" || !y.stale {
					c.Inconclusive("%s: %s (not reproduced)", name, x.what)
					return
				}
			}
		}
		viol(c, suite, name, x.props, fmt.Sprintf("pool of %d: %s", x.max, x.what), x.trace...)
	})
}
