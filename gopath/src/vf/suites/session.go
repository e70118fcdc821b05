package suites

import (
	"database/sql/driver"
	"fmt"
	"io"
	"math/rand"
	"reflect"
	"strings"
	"sync"
	"time"

	bolt "github.com/johnnadratowski/golang-neo4j-bolt-driver"
	berrors "github.com/johnnadratowski/golang-neo4j-bolt-driver/errors"
	"github.com/johnnadratowski/golang-neo4j-bolt-driver/structures/messages"

	"vf/boltsrv"
	"vf/h"
	"vf/ref"
)

// hangTicks is how many heartbeats without any activity on either side make a
// call count as hung (the driver's own timeout is far larger in these suites).
const hangTicks = 600

func init() {
	register(Suite{Name: "pool.session", Props: []string{"C16", "C15", "C13", "C14", "C10", "C09", "C08", "C07"}, Run: poolSession})
	register(Suite{Name: "session.model", Props: []string{"C07", "C08", "C09", "C10", "C13", "C14", "C22", "C23", "C04", "C05", "C26"}, Run: sessionModel})
}

func innermost(err error) error {
	if e, ok := err.(*berrors.Error); ok {
		return e.InnerMost()
	}
	return err
}

func failureMeta(err error) (map[string]interface{}, bool) {
	switch f := innermost(err).(type) {
	case messages.FailureMessage:
		return f.Metadata, true
	case *messages.FailureMessage:
		return f.Metadata, true
	}
	return nil, false
}

// query is one statement of a history with its script.
type query struct {
	text   string
	params map[string]interface{}
	wire   map[string]interface{} // the parameters as they were before any call
	sc     *boltsrv.Script
	effect int // 0 must not happen, 1 must happen once, 2 either, -1 undecided
}

// hist is one model-checked history on one connection.
type hist struct {
	c           *h.Ctx
	suite, name string
	r           *rand.Rand
	srv         *boltsrv.Server
	conn        bolt.Conn
	pool        bolt.ClosableDriverPool // the connection is checked out of it
	deadConns   []bolt.Conn             // handles returned to the pool
	mu          sync.Mutex
	scripts     map[string]*query
	trace       []string
	stop        bool
	nq          int
	runs        []runExp // RUN messages the server must have seen
	chunk       int      // smallest/largest chunk size in use

	// features of the history so far, for attribution
	sawFail, sawRefuse, sawTx, sawGuard, sawPipe bool

	// model
	closed     bool
	st         *stmtM
	tx         *txM
	all        []*query
	deadRows   []deadRows
	deadStmt   []deadStmt
	deadTx     []driver.Tx
	kept       []kept
	keptParams []*query
	unknown    string
	txFailed   bool // server side: the open transaction has failed

	// knobs
	failRate, refuseRate, bigRate int
	small                         bool // short values only
	quiet                         bool // note failures instead of reporting them
	failed                        string
}

// kept is something a call returned, to be looked at again at the end: what
// was handed out must not change when other calls are made.
type kept struct {
	what     string
	exp, got interface{}
	props    []string
}

const maxKept = 400

func (x *hist) keep(what string, exp, got interface{}, props ...string) {
	if len(x.kept) < maxKept && !x.stop {
		x.kept = append(x.kept, kept{what, exp, got, props})
	}
}

func (x *hist) checkKept() {
	for _, k := range x.kept {
		if x.stop {
			return
		}
		eq, why := true, ""
		if cols, ok := k.got.([]string); ok {
			eq, why = reflect.DeepEqual(k.exp, k.got), fmt.Sprintf("want %q got %q", k.exp, cols)
		} else {
			eq, why = ref.Equal(k.exp, k.got)
		}
		if !eq {
			x.fail(x.tags(k.props...), "what %s returned has changed since %s", k.what, why)
			return
		}
	}
	for _, q := range x.keptParams {
		w, err := ref.Wire(q.params)
		if err != nil {
			x.fail(x.tags("C09"), "the parameters passed with %s have been changed: %v", shortStr(q.text), err)
			return
		}
		if eq, why := ref.Equal(q.wire, w); !eq {
			x.fail(x.tags("C09"), "the parameters passed with %s have been changed: %s", shortStr(q.text), why)
			return
		}
	}
	x.c.Count("session.kept_checked", int64(len(x.kept)+len(x.keptParams)))
}

type runExp struct {
	text   string
	params interface{}
	opt    bool
}

type stmtM struct {
	h      bolt.Stmt
	p      bolt.PipelineStmt
	text   string
	texts  []string
	hidden bool
	rs     *rsM
}

type rsM struct {
	rows    bolt.Rows
	prows   bolt.PipelineRows
	qs      []*query
	idx     int
	pos     int
	lazy    bool // nothing pulled yet
	ended   bool
	failed  bool
	old     []bolt.PipelineRows
	inTxAt  bool
	counted bool
}

type txM struct {
	h  driver.Tx
	qs []*query
}

type deadRows struct {
	r bolt.Rows
	p bolt.PipelineRows
}
type deadStmt struct {
	s bolt.Stmt
	p bolt.PipelineStmt
}

func (x *hist) tags(base ...string) []string {
	t := append([]string{}, base...)
	add := func(p string) {
		for _, q := range t {
			if q == p {
				return
			}
		}
		t = append(t, p)
	}
	if x.sawFail {
		add("C10")
	}
	if x.sawRefuse {
		add("C07")
	}
	if x.sawGuard {
		add("C14")
	}
	if x.sawTx {
		add("C13")
	}
	if x.pool != nil {
		add("C16")
		add("C15")
	}
	return t
}

func (x *hist) fail(props []string, f string, a ...interface{}) {
	if x.stop {
		return
	}
	x.stop = true
	if x.quiet {
		x.failed = fmt.Sprintf(f, a...)
		return
	}
	x.mu.Lock()
	if x.unknown != "" {
		props = append(props[:len(props):len(props)], "C09")
		f, a = f+" %s", append(a[:len(a):len(a)], x.unknown)
	}
	x.mu.Unlock()
	tr := x.trace
	if len(tr) > 60 {
		tr = tr[len(tr)-60:]
	}
	viol(x.c, x.suite, x.name, props, fmt.Sprintf(f, a...), tr...)
}

func (x *hist) log(f string, a ...interface{}) {
	if len(x.trace) < 400 {
		x.trace = append(x.trace, fmt.Sprintf(f, a...))
	}
}

// do runs one API call under the hang and panic monitors.
func (x *hist) do(what string, props []string, fn func()) bool {
	if x.stop {
		return false
	}
	x.log("%s", what)
	o := h.Guard(hangTicks, x.srv.Activity, func() {
		for _, s := range x.srv.Sessions() {
			s.Kill(boltsrv.RST)
		}
	}, fn)
	x.c.Count("session.calls", 1)
	if o.Panic != nil {
		x.fail(x.tags(append(props, "C14")...), "%s: %s", what, o.String())
		return false
	}
	if o.Hung {
		x.fail(x.tags(append(props, "C10", "C14")...), "%s did not return although the server had answered everything", what)
		return false
	}
	return true
}

func shortStr(s string) string {
	if len(s) > 40 {
		return fmt.Sprintf("%s…(%d)", s[:40], len(s))
	}
	return s
}

func (x *hist) gen(budget int) *ref.Gen {
	return &ref.Gen{R: x.r, Budget: budget, Graph: true, Small: x.small}
}

// textForms are ways statements are written.
var textForms = []string{
	"CREATE (n:Q {id: %d}) RETURN n;",
	"  MATCH (n) WHERE id(n) = %d RETURN n  ",
	"\n\tmatch (n {q: %d})\n\treturn n\n",
	"RETURN %d;;",
	"// a comment\nRETURN %d // another",
	"/* %d */ RETURN 'it''s; \"quoted\"' + $a + {b}",
	"begin %d",
	"COMMIT  %d",
	"EXPLAIN MATCH (n) RETURN %d",
	"PROFILE MERGE (n {a: %d}) ON CREATE SET n.x = 1",
	"USING PERIODIC COMMIT %d LOAD CSV FROM 'x' AS l RETURN l",
	"\ufeffRETURN %d",
	"RETURN '\u00e9\u4e2d\U0001f600', %d\x00",
	"CALL db.labels() YIELD label /* %d */",
}

// newQuery invents a statement, its parameters and how the server answers it.
func (x *hist) newQuery() *query { return x.newQueryFor("") }

func (x *hist) newQueryFor(text string) *query {
	r := x.r
	g := x.gen(12)
	x.nq++
	q := &query{text: text, effect: -1}
	if text == "" {
		q.text = fmt.Sprintf("Q%d ", x.nq)
		if r.Intn(3) == 0 {
			q.text = fmt.Sprintf(textForms[r.Intn(len(textForms))], x.nq)
		}
		if r.Intn(3) == 0 {
			q.text += g.String(g.StringSize())
		}
		if x.bigRate > 0 && r.Intn(x.bigRate) == 0 {
			q.text += g.String(1000 + r.Intn(70000))
		}
	}
	switch r.Intn(4) {
	case 0:
	case 1:
		q.params = map[string]interface{}{}
	default:
		gg := x.gen(12)
		gg.Graph = r.Intn(4) == 0
		q.params = gg.Props(3)
	}
	if x.bigRate > 0 && r.Intn(x.bigRate) == 0 {
		if q.params == nil {
			q.params = map[string]interface{}{}
		}
		n := ref.EdgeSizes[r.Intn(len(ref.EdgeSizes))]
		if r.Intn(8) > 0 {
			n = r.Intn(700)
		}
		v := ref.Sized(n)[r.Intn(5)]
		if m, ok := v.(map[string]interface{}); ok && r.Intn(2) == 0 {
			q.params = m
		} else {
			q.params["sized"] = v
		}
	}
	q.wire = map[string]interface{}{}
	if q.params != nil {
		w, err := ref.Wire(q.params)
		if err != nil {
			panic(err)
		}
		q.wire, _ = w.(map[string]interface{})
		x.keptParams = append(x.keptParams, q)
	}
	sc := &boltsrv.Script{}
	cols := r.Intn(4)
	if r.Intn(12) == 0 {
		cols = 4 + r.Intn(30)
	}
	nrows := 0
	switch r.Intn(6) {
	case 0:
	case 1:
		nrows = 1
	default:
		nrows = r.Intn(7)
	}
	fields := []interface{}{}
	for i := 0; i < cols; i++ {
		f := fmt.Sprintf("c%d%s", i, g.String(r.Intn(3)))
		if r.Intn(8) == 0 {
			f = []string{"a", "n.name", " count(*) ", "", "`x`", "A"}[r.Intn(6)]
		}
		fields = append(fields, f)
	}
	sc.RunMeta = ref.Map{"fields": fields}
	if r.Intn(3) == 0 {
		sc.RunMeta["result_available_after"] = int64(r.Intn(100000))
	}
	for i := 0; i < nrows; i++ {
		row := []interface{}{}
		gg := x.gen(10)
		if x.bigRate > 0 && r.Intn(x.bigRate) == 0 {
			gg.Budget = 400
		}
		for j := 0; j < cols; j++ {
			if gg.Budget < 1 {
				gg.Budget = 1 // plain values in the last of many columns
			}
			row = append(row, gg.WireValue(3))
		}
		if cols > 0 { // make rows recognisable
			row[0] = fmt.Sprintf("%s/%d", q.text[:min(len(q.text), 12)], i)
		}
		sc.Rows = append(sc.Rows, row)
	}
	sc.PullMeta = ref.Map{"type": "rw", "q": int64(x.nq)}
	if r.Intn(2) == 0 {
		st := ref.Map{}
		for _, k := range []string{"nodes-created", "nodes-deleted", "relationships-created", "relationships-deleted", "properties-set", "labels-added"} {
			if r.Intn(2) == 0 {
				st[k] = g.Int() % 100000
			}
		}
		sc.PullMeta["stats"] = st
	}
	if r.Intn(100) < x.failRate {
		m := oddFailMeta(fmt.Sprintf("%d %s", x.nq, g.String(r.Intn(40))))
		if r.Intn(2) == 0 {
			sc.FailRun = m
		} else {
			sc.FailPull = m
			sc.FailPullAt = r.Intn(nrows + 1)
		}
	}
	if r.Intn(2) == 0 {
		sc.Effect = fmt.Sprintf("e%d", x.nq)
	}
	q.sc = sc
	if x.st == nil || x.st.rs == nil || text == "" {
		// while a prepared statement is busy its scripts stay as they are
		x.mu.Lock()
		x.scripts[q.text] = q
		x.mu.Unlock()
	}
	x.all = append(x.all, q)
	return q
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func (x *hist) handler(s *boltsrv.Session, text string, params interface{}) *boltsrv.Script {
	x.mu.Lock()
	defer x.mu.Unlock()
	if q := x.scripts[text]; q != nil {
		return q.sc
	}
	if x.unknown == "" {
		x.unknown = fmt.Sprintf("(the server received %q, which was never passed)", shortStr(text))
	}
	return nil
}

// sent notes that a query was transmitted, for the RUN log.
func (x *hist) sent(q *query) {
	x.runs = append(x.runs, runExp{text: q.text, params: q.wire})
}

func (x *hist) sentText(t string, opt bool) {
	x.runs = append(x.runs, runExp{text: t, params: map[string]interface{}{}, opt: opt})
}

// runFails gives the metadata with which RUN of q fails now, if it does.
func (x *hist) runFails(q *query) ref.Map {
	if x.tx != nil && x.txFailed {
		return boltsrv.TerminatedMeta
	}
	return q.sc.FailRun
}

func (x *hist) noteFailure() {
	x.sawFail = true
	if x.tx != nil {
		x.txFailed = true
	}
}

// done records that q completed on the server; bad means it failed.
func (x *hist) done(q *query, bad bool) {
	if q.effect != -1 {
		return
	}
	if bad {
		q.effect = 0
		return
	}
	if x.tx != nil {
		x.tx.qs = append(x.tx.qs, q)
		return
	}
	q.effect = 1
}

func (x *hist) wantFailure(what string, err error, m ref.Map) {
	if err == nil {
		x.fail(x.tags("C10", "C08"), "%s succeeded although the server reported failure %s", what, ref.Short(m))
		return
	}
	got, ok := failureMeta(err)
	if !ok {
		x.fail(x.tags("C10"), "%s: the innermost error is %T (%s), not the server's failure %s", what, innermost(err), firstLine(err), ref.Short(m))
		return
	}
	exp, _ := ref.Expect(m)
	if eq, why := ref.Equal(exp, got); !eq {
		x.fail(x.tags("C10"), "%s: failure metadata differs %s", what, why)
	}
	x.keep(what+" failure", exp, got, "C10")
}

func (x *hist) wantMeta(what string, got map[string]interface{}, want ref.Map) {
	exp, _ := ref.Expect(want)
	if eq, why := ref.Equal(exp, got); !eq {
		x.fail(x.tags("C08", "C23"), "%s: metadata is %s, the server sent %s %s", what, ref.Short(got), ref.Short(exp), why)
	}
	x.keep(what, exp, got, "C08", "C23")
}

func (x *hist) wantRow(what string, got []interface{}, want []interface{}) {
	exp, _ := ref.Expect(want)
	if got == nil {
		x.fail(x.tags("C08"), "%s: no row, the server sent %s", what, ref.Short(exp))
		return
	}
	if eq, why := ref.Equal(exp, got); !eq {
		x.fail(x.tags("C08"), "%s: row differs from what the server sent %s", what, why)
	}
	x.keep(what, exp, got, "C08")
	x.c.Count("session.rows_checked", 1)
}

func expColumns(m ref.Map) []string {
	l, ok := m["fields"].([]interface{})
	if !ok {
		return []string{}
	}
	out := []string{}
	for _, f := range l {
		s, ok := f.(string)
		if !ok {
			return []string{}
		}
		out = append(out, s)
	}
	return out
}

func (x *hist) wantColumns(what string, got []string, m ref.Map) {
	exp := expColumns(m)
	if strings.Join(got, "\x00") != strings.Join(exp, "\x00") || len(got) != len(exp) {
		x.fail(x.tags("C08", "C23"), "%s: columns %q, the server sent %q", what, got, exp)
	}
	x.keep(what, exp, got, "C08", "C23")
}

func expAffected(m ref.Map) (n int64, ok bool) {
	st, has := m["stats"]
	if !has {
		return 0, true
	}
	sm, isMap := st.(map[string]interface{})
	if !isMap {
		return 0, false
	}
	for _, k := range []string{"nodes-created", "nodes-deleted", "relationships-created", "relationships-deleted"} {
		if v, has := sm[k]; has {
			i, isInt := v.(int64)
			if !isInt {
				return 0, false
			}
			n += i
		}
	}
	return n, true
}

func (x *hist) wantResult(what string, res bolt.Result, q *query) {
	if res == nil {
		x.fail(x.tags("C08", "C23"), "%s: no result", what)
		return
	}
	x.wantMeta(what+" result", res.Metadata(), q.sc.PullMeta)
	exp, ok := expAffected(q.sc.PullMeta)
	n, err := res.RowsAffected()
	if ok && (err != nil || n != exp) {
		x.fail(x.tags("C23"), "%s: RowsAffected is %d, %v; the server's statistics %s give %d", what, n, err, ref.Short(q.sc.PullMeta["stats"]), exp)
	}
	if !ok && err == nil {
		x.fail(x.tags("C23"), "%s: RowsAffected is %d for statistics %s", what, n, ref.Short(q.sc.PullMeta["stats"]))
	}
	x.c.Count("session.results_checked", 1)
}

func (x *hist) wantRefused(what string, err error, why string) {
	x.sawGuard = true
	x.c.Count("session.guards_checked", 1)
	if err == nil {
		p := []string{"C14"}
		if strings.Contains(why, "transaction") {
			p = append(p, "C13")
		}
		x.fail(x.tags(p...), "%s was accepted although %s", what, why)
	}
}

// badParams returns parameters that can't be encoded.
func (x *hist) badParams() map[string]interface{} {
	bads := badValues()
	b := bads[x.r.Intn(len(bads))]
	m := x.gen(10).Props(2)
	m["bad"] = wrapBad(x.r, b.v, x.r.Intn(3))
	if x.r.Intn(3) == 0 {
		m["aa"] = strings.Repeat("x", x.r.Intn(100000))
	}
	return m
}

func (x *hist) wantEncodeRefusal(what string, err error) {
	x.sawRefuse = true
	x.c.Count("session.refused_params", 1)
	if err == nil {
		x.fail(x.tags("C07"), "%s succeeded with parameters that can't be encoded", what)
	}
}

// guardReason tells why a request on the connection must be refused now.
func (x *hist) guardReason() string {
	if x.closed {
		return "the connection is closed"
	}
	if x.st != nil {
		return "a statement is open"
	}
	return ""
}

// ops ------------------------------------------------------------------------

func (x *hist) opConnExec() {
	q := x.newQuery()
	bad := x.r.Intn(100) < x.refuseRate
	params := q.params
	if bad {
		params = x.badParams()
	}
	var res bolt.Result
	var err error
	what := fmt.Sprintf("conn.ExecNeo(%s)", shortStr(q.text))
	if !x.do(what, []string{"C08"}, func() { res, err = x.conn.ExecNeo(q.text, params) }) {
		return
	}
	if why := x.guardReason(); why != "" {
		q.effect = 0
		x.wantRefused(what, err, why)
		return
	}
	if bad {
		q.effect = 0
		x.wantEncodeRefusal(what, err)
		return
	}
	x.sent(q)
	x.checkExec(what, q, res, err)
}

func (x *hist) checkExec(what string, q *query, res bolt.Result, err error) {
	if m := x.runFails(q); m != nil {
		x.wantFailure(what, err, m)
		x.done(q, true)
		x.noteFailure()
		return
	}
	if q.sc.FailPull != nil {
		x.wantFailure(what, err, q.sc.FailPull)
		x.done(q, true)
		x.noteFailure()
		return
	}
	x.done(q, false)
	if err != nil {
		x.fail(x.tags("C08"), "%s failed: %s", what, firstLine(err))
		return
	}
	x.wantResult(what, res, q)
}

func (x *hist) opConnQuery() {
	q := x.newQuery()
	bad := x.r.Intn(100) < x.refuseRate
	params := q.params
	if bad {
		params = x.badParams()
	}
	if x.r.Intn(3) == 0 {
		x.opQueryAll(q, params, bad)
		return
	}
	var rows bolt.Rows
	var err error
	what := fmt.Sprintf("conn.QueryNeo(%s)", shortStr(q.text))
	if !x.do(what, []string{"C08"}, func() { rows, err = x.conn.QueryNeo(q.text, params) }) {
		return
	}
	if why := x.guardReason(); why != "" {
		q.effect = 0
		x.wantRefused(what, err, why)
		return
	}
	if bad {
		q.effect = 0
		x.wantEncodeRefusal(what, err)
		return
	}
	x.sent(q)
	if m := x.runFails(q); m != nil {
		x.wantFailure(what, err, m)
		x.done(q, true)
		x.noteFailure()
		return
	}
	if err != nil || rows == nil {
		x.done(q, false)
		x.fail(x.tags("C08"), "%s failed: %s", what, firstLine(err))
		return
	}
	x.done(q, q.sc.FailPull != nil)
	x.st = &stmtM{hidden: true, rs: &rsM{rows: rows, qs: []*query{q}}}
	x.checkHeader(what, rows.Columns(), rows.Metadata(), q)
}

func (x *hist) checkHeader(what string, cols []string, meta map[string]interface{}, q *query) {
	x.wantColumns(what, cols, q.sc.RunMeta)
	x.wantMeta(what, meta, q.sc.RunMeta)
}

func (x *hist) opQueryAll(q *query, params map[string]interface{}, bad bool) {
	var data [][]interface{}
	var meta, end map[string]interface{}
	var err error
	what := fmt.Sprintf("conn.QueryNeoAll(%s)", shortStr(q.text))
	if !x.do(what, []string{"C08"}, func() { data, meta, end, err = x.conn.QueryNeoAll(q.text, params) }) {
		return
	}
	if why := x.guardReason(); why != "" {
		q.effect = 0
		x.wantRefused(what, err, why)
		return
	}
	if bad {
		q.effect = 0
		x.wantEncodeRefusal(what, err)
		return
	}
	x.sent(q)
	if m := x.runFails(q); m != nil {
		x.wantFailure(what, err, m)
		x.done(q, true)
		x.noteFailure()
		return
	}
	if q.sc.FailPull != nil {
		x.wantFailure(what, err, q.sc.FailPull)
		x.done(q, true)
		x.noteFailure()
		return
	}
	x.done(q, false)
	if err != nil {
		x.fail(x.tags("C08"), "%s failed: %s", what, firstLine(err))
		return
	}
	x.wantMeta(what+" run", meta, q.sc.RunMeta)
	x.wantMeta(what+" end", end, q.sc.PullMeta)
	x.wantRows(what, data, q.sc.Rows)
}

func (x *hist) wantRows(what string, data [][]interface{}, want [][]interface{}) {
	if len(data) != len(want) {
		x.fail(x.tags("C08"), "%s returned %d rows, the server sent %d", what, len(data), len(want))
		return
	}
	for i := range data {
		x.wantRow(fmt.Sprintf("%s row %d", what, i), data[i], want[i])
	}
}

func (x *hist) opPrepare() {
	var s bolt.Stmt
	var err error
	x.nq++
	text := fmt.Sprintf("P%d ", x.nq)
	if x.r.Intn(3) == 0 {
		text += x.gen(5).String(x.r.Intn(300))
	}
	what := fmt.Sprintf("conn.PrepareNeo(%s)", shortStr(text))
	if !x.do(what, []string{"C08"}, func() { s, err = x.conn.PrepareNeo(text) }) {
		return
	}
	if why := x.guardReason(); why != "" {
		x.wantRefused(what, err, why)
		return
	}
	if err != nil {
		x.fail(x.tags("C08", "C14"), "%s failed: %s", what, firstLine(err))
		return
	}
	x.st = &stmtM{h: s, text: text}
}

// pipeLen is mostly short.
func (x *hist) pipeLen() int {
	if x.r.Intn(12) == 0 {
		return 5 + x.r.Intn(60)
	}
	return 1 + x.r.Intn(4)
}

func (x *hist) opPreparePipe() {
	var s bolt.PipelineStmt
	var err error
	n := x.pipeLen()
	var texts []string
	for i := 0; i < n; i++ {
		x.nq++
		texts = append(texts, fmt.Sprintf("PP%d ", x.nq))
	}
	what := fmt.Sprintf("conn.PreparePipeline(%d)", n)
	if !x.do(what, []string{"C08"}, func() { s, err = x.conn.PreparePipeline(texts...) }) {
		return
	}
	if why := x.guardReason(); why != "" {
		x.wantRefused(what, err, why)
		return
	}
	if err != nil {
		x.fail(x.tags("C08", "C14"), "%s failed: %s", what, firstLine(err))
		return
	}
	x.st = &stmtM{p: s, texts: texts}
}

// stmtReuse: a prepared statement runs many times with the same text, so each
// run gets a fresh script under that text.
func (x *hist) opStmtExec() {
	q := x.newQueryFor(x.st.text)
	busy := x.st.rs != nil
	bad := x.r.Intn(100) < x.refuseRate
	params := q.params
	if bad {
		params = x.badParams()
	}
	var res bolt.Result
	var err error
	what := fmt.Sprintf("stmt.ExecNeo(%s)", shortStr(q.text))
	if !x.do(what, []string{"C08"}, func() { res, err = x.st.h.ExecNeo(params) }) {
		return
	}
	if busy {
		q.effect = 0
		x.wantRefused(what, err, "its rows are open")
		return
	}
	if bad {
		q.effect = 0
		x.wantEncodeRefusal(what, err)
		return
	}
	x.sent(q)
	x.checkExec(what, q, res, err)
}

func (x *hist) opStmtQuery() {
	q := x.newQueryFor(x.st.text)
	busy := x.st.rs != nil
	bad := x.r.Intn(100) < x.refuseRate
	params := q.params
	if bad {
		params = x.badParams()
	}
	var rows bolt.Rows
	var err error
	what := fmt.Sprintf("stmt.QueryNeo(%s)", shortStr(q.text))
	if !x.do(what, []string{"C08"}, func() { rows, err = x.st.h.QueryNeo(params) }) {
		return
	}
	if busy {
		q.effect = 0
		x.wantRefused(what, err, "its rows are open")
		return
	}
	if bad {
		q.effect = 0
		x.wantEncodeRefusal(what, err)
		return
	}
	x.sent(q)
	if m := x.runFails(q); m != nil {
		x.wantFailure(what, err, m)
		x.done(q, true)
		x.noteFailure()
		return
	}
	if err != nil || rows == nil {
		x.fail(x.tags("C08"), "%s failed: %s", what, firstLine(err))
		return
	}
	x.st.rs = &rsM{rows: rows, qs: []*query{q}, lazy: true}
	x.checkHeader(what, rows.Columns(), rows.Metadata(), q)
}

// started marks the statement's rows as requested (the server will run them to
// completion).
func (x *hist) pulled(rs *rsM) {
	if rs.lazy {
		rs.lazy = false
		x.done(rs.qs[0], rs.qs[0].sc.FailPull != nil)
	}
}

func (x *hist) pipeQueries(texts []string, n int) []*query {
	var qs []*query
	for i := 0; i < n; i++ {
		t := ""
		if texts != nil {
			t = texts[i]
		}
		qs = append(qs, x.newQueryFor(t))
	}
	return qs
}

// pipeDone decides the effects of a transmitted pipeline.
func (x *hist) pipeDone(qs []*query) {
	dead := false
	for _, q := range qs {
		x.sent(q)
		if dead {
			q.effect = 0
			continue
		}
		bad := x.runFails(q) != nil || q.sc.FailPull != nil
		x.done(q, bad)
		dead = bad
	}
}

func (x *hist) opPipeline(stmt bool) {
	x.sawPipe = true
	exec := x.r.Intn(2) == 0
	n := x.pipeLen()
	if !stmt && x.r.Intn(40) == 0 {
		n = 0
	}
	var texts []string
	if stmt {
		n = len(x.st.texts)
		texts = x.st.texts
	}
	busy := stmt && x.st.rs != nil
	why := ""
	if stmt && busy {
		why = "its rows are open"
	} else if !stmt {
		why = x.guardReason()
	}
	qs := x.pipeQueries(texts, n)
	badAt := -1
	if n > 0 && x.r.Intn(100) < x.refuseRate {
		badAt = x.r.Intn(n)
		for _, q := range qs {
			q.sc.FailRun, q.sc.FailPull = nil, nil
		}
	}
	mismatch := badAt < 0 && x.r.Intn(25) == 0
	var ps []map[string]interface{}
	var ts []string
	for i, q := range qs {
		p := q.params
		if i == badAt {
			p = x.badParams()
		}
		ps = append(ps, p)
		ts = append(ts, q.text)
	}
	if mismatch {
		ps = append(ps, map[string]interface{}{})
	}
	var res []bolt.Result
	var rows bolt.PipelineRows
	var err error
	name := "QueryPipeline"
	if exec {
		name = "ExecPipeline"
	}
	what := fmt.Sprintf("%s.%s(%d queries)", map[bool]string{true: "stmt", false: "conn"}[stmt], name, n)
	ok := x.do(what, []string{"C08"}, func() {
		switch {
		case stmt && exec:
			res, err = x.st.p.ExecPipeline(ps...)
		case stmt:
			rows, err = x.st.p.QueryPipeline(ps...)
		case exec:
			res, err = x.conn.ExecPipeline(ts, ps...)
		default:
			rows, err = x.conn.QueryPipeline(ts, ps...)
		}
	})
	if !ok {
		return
	}
	none := func() {
		for _, q := range qs {
			q.effect = 0
		}
	}
	if why != "" {
		none()
		x.wantRefused(what, err, why)
		return
	}
	if mismatch {
		none()
		x.wantRefused(what, err, "it was given more parameter maps than queries")
		return
	}
	if badAt >= 0 {
		x.wantEncodeRefusal(what, err)
		for i, q := range qs {
			q.effect = 0
			if i < badAt {
				q.effect = 2
				if x.tx != nil {
					x.tx.qs = append(x.tx.qs, q)
				}
				x.runs = append(x.runs, runExp{q.text, q.wire, true})
			}
		}
		return
	}
	if n == 0 {
		// an empty pipeline has nothing to report: an error or an empty result
		if !exec && err == nil && rows != nil {
			x.st = &stmtM{hidden: true, rs: &rsM{prows: rows, ended: true}}
		}
		return
	}
	if exec {
		for i, q := range qs {
			m := x.runFails(q)
			if m == nil {
				m = q.sc.FailPull
			}
			if m != nil {
				x.wantFailure(what, err, m)
				x.pipeDone(qs)
				x.noteFailure()
				return
			}
			_ = i
		}
		x.pipeDone(qs)
		if err != nil {
			x.fail(x.tags("C08"), "%s failed: %s", what, firstLine(err))
			return
		}
		if len(res) != n {
			x.fail(x.tags("C08", "C23"), "%s gave %d results", what, len(res))
			return
		}
		for i, q := range qs {
			x.wantResult(fmt.Sprintf("%s result %d", what, i), res[i], q)
		}
		return
	}
	m := x.runFails(qs[0])
	x.pipeDone(qs)
	if m != nil {
		x.wantFailure(what, err, m)
		x.noteFailure()
		return
	}
	if err != nil || rows == nil {
		x.fail(x.tags("C08"), "%s failed: %s", what, firstLine(err))
		return
	}
	rs := &rsM{prows: rows, qs: qs}
	if stmt {
		x.st.rs = rs
	} else {
		x.st = &stmtM{hidden: true, rs: rs}
	}
	x.checkHeader(what, rows.Columns(), rows.Metadata(), qs[0])
}

// limit is how many rows of query i arrive before its end or failure.
func limit(q *query) int {
	n := len(q.sc.Rows)
	if q.sc.FailPull != nil && q.sc.FailPullAt < n {
		n = q.sc.FailPullAt
	}
	return n
}

func (x *hist) opNext() {
	rs := x.st.rs
	if rs.prows != nil {
		x.opNextPipeline()
		return
	}
	if x.r.Intn(6) == 0 {
		x.opAll()
		return
	}
	var row []interface{}
	var meta map[string]interface{}
	var err error
	what := fmt.Sprintf("rows.NextNeo() [%s %d]", shortStr(rs.qs[0].text), rs.pos)
	if !x.do(what, []string{"C08"}, func() { row, meta, err = rs.rows.NextNeo() }) {
		return
	}
	q := rs.qs[0]
	switch {
	case rs.failed:
		if err == nil || row != nil || err == io.EOF {
			x.fail(x.tags("C08", "C10"), "%s after the failure returned row %s, error %v", what, ref.Short(row), err)
		}
		return
	case rs.ended:
		if err != io.EOF || row != nil {
			x.fail(x.tags("C08"), "%s past the end returned row %s, error %s", what, ref.Short(row), firstLine(err))
		}
		x.c.Count("session.reads_past_end", 1)
		return
	}
	x.pulled(rs)
	switch {
	case rs.pos < limit(q):
		if err != nil {
			x.fail(x.tags("C08"), "%s: error %s, the server sent a row", what, firstLine(err))
			return
		}
		x.wantRow(what, row, q.sc.Rows[rs.pos])
		rs.pos++
	case q.sc.FailPull != nil:
		if row != nil {
			x.fail(x.tags("C08", "C10"), "%s returned a row together with the failure", what)
		}
		x.wantFailure(what, err, q.sc.FailPull)
		rs.failed = true
		x.noteFailure()
	default:
		if err != io.EOF || row != nil {
			x.fail(x.tags("C08"), "%s at the end returned row %s, error %s", what, ref.Short(row), firstLine(err))
			return
		}
		x.wantMeta(what+" end", meta, q.sc.PullMeta)
		rs.ended = true
	}
}

func (x *hist) opAll() {
	rs := x.st.rs
	var data [][]interface{}
	var meta map[string]interface{}
	var err error
	what := fmt.Sprintf("rows.All() [%s %d]", shortStr(rs.qs[0].text), rs.pos)
	if !x.do(what, []string{"C08"}, func() { data, meta, err = rs.rows.All() }) {
		return
	}
	q := rs.qs[0]
	if rs.failed {
		if err == nil || len(data) > 0 {
			x.fail(x.tags("C08", "C10"), "%s after the failure returned %d rows, error %v", what, len(data), err)
		}
		return
	}
	if rs.ended {
		if len(data) > 0 {
			x.fail(x.tags("C08"), "%s past the end returned %d rows", what, len(data))
		}
		return
	}
	x.pulled(rs)
	if q.sc.FailPull != nil {
		x.wantFailure(what, err, q.sc.FailPull)
		rs.failed = true
		x.noteFailure()
		return
	}
	if err != nil {
		x.fail(x.tags("C08"), "%s failed: %s", what, firstLine(err))
		return
	}
	x.wantRows(what, data, q.sc.Rows[rs.pos:])
	x.wantMeta(what+" end", meta, q.sc.PullMeta)
	rs.pos = len(q.sc.Rows)
	rs.ended = true
}

func (x *hist) opNextPipeline() {
	rs := x.st.rs
	var row []interface{}
	var meta map[string]interface{}
	var next bolt.PipelineRows
	var err error
	what := fmt.Sprintf("rows.NextPipeline() [query %d row %d]", rs.idx, rs.pos)
	if !x.do(what, []string{"C08"}, func() { row, meta, next, err = rs.prows.NextPipeline() }) {
		return
	}
	if rs.failed {
		if err == nil || row != nil || next != nil {
			x.fail(x.tags("C08", "C10"), "%s after the failure returned row %s, error %v", what, ref.Short(row), err)
		}
		return
	}
	if rs.ended {
		if row != nil || next != nil {
			x.fail(x.tags("C08"), "%s past the end returned row %s", what, ref.Short(row))
		}
		x.c.Count("session.reads_past_end", 1)
		return
	}
	q := rs.qs[rs.idx]
	switch {
	case rs.pos < limit(q):
		if err != nil || next != nil {
			x.fail(x.tags("C08"), "%s: error %s, next %v, the server sent a row", what, firstLine(err), next != nil)
			return
		}
		x.wantRow(what, row, q.sc.Rows[rs.pos])
		rs.pos++
	case q.sc.FailPull != nil:
		x.wantFailure(what, err, q.sc.FailPull)
		rs.failed = true
		x.noteFailure()
	case rs.idx == len(rs.qs)-1:
		if (err != nil && err != io.EOF) || row != nil || next != nil {
			x.fail(x.tags("C08"), "%s at the end returned row %s, error %s", what, ref.Short(row), firstLine(err))
			return
		}
		rs.ended = true
	default:
		nq := rs.qs[rs.idx+1]
		// only a statement's own FailRun matters here: had the transaction
		// failed before, the first statement would have failed
		if nq.sc.FailRun != nil {
			x.wantFailure(what, err, nq.sc.FailRun)
			rs.failed = true
			x.noteFailure()
			return
		}
		if err != nil || row != nil || next == nil {
			x.fail(x.tags("C08"), "%s at the end of query %d returned row %s, next %v, error %s", what, rs.idx, ref.Short(row), next != nil, firstLine(err))
			return
		}
		e1, _ := ref.Expect(q.sc.PullMeta)
		e2, _ := ref.Expect(nq.sc.RunMeta)
		ok1, _ := ref.Equal(e1, meta)
		ok2, _ := ref.Equal(e2, meta)
		if !ok1 && !ok2 {
			x.fail(x.tags("C08", "C23"), "%s: metadata %s is neither query's", what, ref.Short(meta))
			return
		}
		rs.old = append(rs.old, rs.prows)
		rs.prows = next
		rs.idx++
		rs.pos = 0
		x.checkHeader(what, next.Columns(), next.Metadata(), nq)
	}
}

// pendingFailure is the failure that draining the rows will meet.
func (rs *rsM) pendingFailure() ref.Map {
	if rs.ended || rs.failed {
		return nil
	}
	for i := rs.idx; i < len(rs.qs); i++ {
		if i > rs.idx && rs.qs[i].sc.FailRun != nil {
			return rs.qs[i].sc.FailRun
		}
		if rs.qs[i].sc.FailPull != nil {
			return rs.qs[i].sc.FailPull
		}
	}
	return nil
}

// drain models what closing the open statement does; it returns the failure
// the closing call must report, if any, and whether any error is acceptable.
func (x *hist) drain() (m ref.Map, lax bool) {
	st := x.st
	if st == nil {
		return nil, false
	}
	if rs := st.rs; rs != nil {
		x.pulledByClose(rs)
		m = rs.pendingFailure()
		lax = rs.failed
		x.buryRows(rs)
		st.rs = nil
	}
	return m, lax
}

func (x *hist) pulledByClose(rs *rsM) {
	if rs.lazy {
		x.c.Count("session.discards", 1)
	}
	x.pulled(rs)
}

func (x *hist) buryRows(rs *rsM) {
	if rs.rows != nil {
		x.deadRows = append(x.deadRows, deadRows{r: rs.rows})
	}
	if rs.prows != nil {
		x.deadRows = append(x.deadRows, deadRows{p: rs.prows})
	}
	for _, o := range rs.old {
		x.deadRows = append(x.deadRows, deadRows{p: o})
	}
}

func (x *hist) buryStmt() {
	if x.st == nil {
		return
	}
	if x.st.h != nil {
		x.deadStmt = append(x.deadStmt, deadStmt{s: x.st.h})
	}
	if x.st.p != nil {
		x.deadStmt = append(x.deadStmt, deadStmt{p: x.st.p})
	}
	x.st = nil
}

func (x *hist) checkClose(what string, err error, m ref.Map, lax bool) {
	if m != nil {
		x.wantFailure(what, err, m)
		x.noteFailure()
		return
	}
	if err != nil && !lax {
		x.fail(x.tags("C08", "C14"), "%s failed: %s", what, firstLine(err))
	}
}

func (x *hist) opRowsClose() {
	rs := x.st.rs
	what := "rows.Close()"
	lazy := rs.lazy
	var err error
	old := len(rs.old) > 0 && x.r.Intn(3) == 0
	if !x.do(what, []string{"C08"}, func() {
		switch {
		case rs.rows != nil:
			err = rs.rows.Close()
		case old:
			err = rs.old[x.r.Intn(len(rs.old))].Close()
		default:
			err = rs.prows.Close()
		}
	}) {
		return
	}
	if lazy {
		x.checkDiscarded(rs.qs[0])
	}
	m, lax := x.drain()
	if old {
		what = "Close() of an earlier query's rows in a pipeline"
	}
	x.checkClose(what, err, m, lax)
	if x.st.hidden {
		x.buryStmt()
	}
}

// checkDiscarded: rows nobody asked for must not have been transferred.
func (x *hist) checkDiscarded(q *query) {
	for _, s := range x.srv.Sessions() {
		rq := s.Requests()
		for i := len(rq) - 1; i >= 0; i-- {
			if rq[i].Kind == "RUN" && rq[i].Query == q.text {
				if i+1 < len(rq) && rq[i+1].Kind == "PULL_ALL" && len(q.sc.Rows) > 0 {
					x.fail([]string{"C22"}, "rows closed before the first row was read were transferred: %s was sent", rq[i+1].Kind)
				}
				x.c.Count("session.discard_checked", 1)
				return
			}
		}
	}
}

func (x *hist) opStmtClose() {
	what := "stmt.Close()"
	var err error
	lazy := x.st.rs != nil && x.st.rs.lazy
	var q *query
	if lazy {
		q = x.st.rs.qs[0]
	}
	if !x.do(what, []string{"C08", "C14"}, func() {
		if x.st.h != nil {
			err = x.st.h.Close()
		} else {
			err = x.st.p.Close()
		}
	}) {
		return
	}
	if lazy {
		x.checkDiscarded(q)
	}
	m, lax := x.drain()
	x.checkClose(what, err, m, lax)
	x.buryStmt()
}

func (x *hist) opBegin() {
	x.sawTx = true
	var tx driver.Tx
	var err error
	if !x.do("conn.Begin()", []string{"C13"}, func() { tx, err = x.conn.Begin() }) {
		return
	}
	if x.tx != nil {
		x.wantRefused("conn.Begin()", err, "a transaction is open")
		return
	}
	if why := x.guardReason(); why != "" {
		x.wantRefused("conn.Begin()", err, why)
		return
	}
	x.sentText("BEGIN", false)
	if m := x.takeTxFail("BEGIN"); m != nil {
		x.wantFailure("conn.Begin()", err, m)
		x.sawFail = true
		return
	}
	if err != nil || tx == nil {
		x.fail(x.tags("C13"), "conn.Begin() failed: %s", firstLine(err))
		return
	}
	x.tx = &txM{h: tx}
	x.txFailed = false
	x.c.Count("session.transactions", 1)
}

func (x *hist) takeTxFail(op string) ref.Map {
	x.mu.Lock()
	defer x.mu.Unlock()
	q := x.scripts["\x00"+op]
	if q == nil {
		return nil
	}
	delete(x.scripts, "\x00"+op)
	if q.sc.FailPull != nil {
		x.c.Count("session.tx-failed-at-pull", 1)
	} else {
		x.c.Count("session.tx-failed-at-run", 1)
	}
	return q.txMeta()
}

// txMeta is how a BEGIN, COMMIT or ROLLBACK fails.
func (q *query) txMeta() ref.Map {
	if q.sc.FailPull != nil {
		return q.sc.FailPull
	}
	return q.sc.FailRun
}

// txFailPull tells whether the armed failure comes after a successful RUN.
func (x *hist) txFailPull(s *boltsrv.Session, op string) bool {
	x.mu.Lock()
	defer x.mu.Unlock()
	q := x.scripts["\x00"+op]
	return q != nil && q.sc.FailPull != nil
}

// armTxFail makes the next BEGIN/COMMIT/ROLLBACK fail.
func (x *hist) armTxFail(op string) {
	sc := &boltsrv.Script{}
	if m := oddFailMeta(fmt.Sprintf("%s %d", op, x.nq)); x.r.Intn(2) == 0 {
		sc.FailRun = m
	} else {
		sc.FailPull = m
	}
	x.mu.Lock()
	x.scripts["\x00"+op] = &query{sc: sc}
	x.mu.Unlock()
}

func (x *hist) txFail(s *boltsrv.Session, op string) ref.Map {
	x.mu.Lock()
	defer x.mu.Unlock()
	if q := x.scripts["\x00"+op]; q != nil {
		return q.txMeta()
	}
	return nil
}

func (x *hist) disarm() {
	x.mu.Lock()
	for _, op := range []string{"BEGIN", "COMMIT", "ROLLBACK"} {
		delete(x.scripts, "\x00"+op)
	}
	x.mu.Unlock()
}

func (x *hist) txEnd(effect int) {
	for _, q := range x.tx.qs {
		switch {
		case effect == 0:
			q.effect = 0
		case q.effect == 2:
		default:
			q.effect = effect
		}
	}
	x.deadTx = append(x.deadTx, x.tx.h)
	x.tx = nil
	x.txFailed = false
}

func (x *hist) opCommit() {
	if x.r.Intn(100) < x.failRate/2 {
		x.armTxFail("COMMIT")
	}
	var err error
	if !x.do("tx.Commit()", []string{"C13"}, func() { err = x.tx.h.Commit() }) {
		return
	}
	m, lax := x.drain()
	x.buryStmt()
	switch {
	case m != nil:
		x.wantFailure("tx.Commit() with failing unread rows", err, m)
		x.sawFail = true
		x.sentText("COMMIT", true)
		x.sentText("ROLLBACK", true)
		x.txEnd(0)
	case x.txFailed:
		if err == nil {
			x.fail(x.tags("C13"), "tx.Commit() succeeded although work in the transaction had failed")
		}
		x.sentText("COMMIT", true)
		x.sentText("ROLLBACK", true)
		x.txEnd(0)
		x.sawFail = true
	default:
		_ = lax
		x.sentText("COMMIT", false)
		if m := x.takeTxFail("COMMIT"); m != nil {
			x.wantFailure("tx.Commit()", err, m)
			x.sawFail = true
			x.sentText("ROLLBACK", true)
			x.txEnd(0)
			break
		}
		if err != nil {
			x.fail(x.tags("C13"), "tx.Commit() failed: %s", firstLine(err))
			return
		}
		x.txEnd(1)
		x.c.Count("session.commits", 1)
	}
	x.disarm()
}

func (x *hist) opRollback() {
	if x.r.Intn(100) < x.failRate/2 {
		x.armTxFail("ROLLBACK")
	}
	var err error
	if !x.do("tx.Rollback()", []string{"C13"}, func() { err = x.tx.h.Rollback() }) {
		return
	}
	m, _ := x.drain()
	x.buryStmt()
	if m != nil {
		x.wantFailure("tx.Rollback() with failing unread rows", err, m)
		x.sawFail = true
		x.sentText("ROLLBACK", true)
	} else {
		x.sentText("ROLLBACK", false)
		if m := x.takeTxFail("ROLLBACK"); m != nil {
			x.wantFailure("tx.Rollback()", err, m)
			x.sawFail = true
		} else if err != nil {
			x.fail(x.tags("C13"), "tx.Rollback() failed: %s", firstLine(err))
			return
		} else {
			x.c.Count("session.rollbacks", 1)
		}
	}
	x.txEnd(0)
	x.disarm()
}

func (x *hist) opConnClose() {
	var err error
	lazy := x.st != nil && x.st.rs != nil && x.st.rs.lazy
	var lq *query
	if lazy {
		lq = x.st.rs.qs[0]
	}
	if x.tx != nil && x.r.Intn(100) < x.failRate/2 {
		x.armTxFail("ROLLBACK")
	}
	if !x.do("conn.Close()", []string{"C14", "C26"}, func() { err = x.conn.Close() }) {
		return
	}
	if x.closed {
		if err != nil {
			x.fail(x.tags("C14"), "closing a closed connection failed: %s", firstLine(err))
		}
		return
	}
	m, lax := x.drain()
	x.buryStmt()
	if lq != nil && lq.effect == 1 {
		lq.effect = 2
	}
	failed := m != nil
	if x.tx != nil {
		x.sentText("ROLLBACK", true)
		if x.takeTxFail("ROLLBACK") != nil {
			failed = true
		}
		x.txEnd(0)
	}
	switch {
	case m != nil && err == nil:
		x.fail(x.tags("C10"), "conn.Close() succeeded although the server reported failure %s for unread rows", ref.Short(m))
	case m == nil && !failed && err != nil && !lax:
		x.fail(x.tags("C14"), "conn.Close() failed: %s", firstLine(err))
	}
	if failed {
		x.sawFail = true
	}
	x.closed = true
	x.disarm()
}

func (x *hist) opDead() {
	n := len(x.deadRows) + len(x.deadStmt) + len(x.deadTx)
	if n == 0 {
		return
	}
	x.sawGuard = true
	k := x.r.Intn(n)
	var err error
	closing, pipe := false, false
	what := ""
	var row []interface{}
	switch {
	case k < len(x.deadRows):
		d := x.deadRows[k]
		pipe = d.p != nil
		switch x.r.Intn(4) {
		case 0, 1:
			closing = true
			what = "Close() of closed rows"
			x.do(what, []string{"C14"}, func() {
				if d.r != nil {
					err = d.r.Close()
				} else {
					err = d.p.Close()
				}
			})
		case 2:
			what = "Columns/Metadata of closed rows"
			x.do(what, []string{"C14"}, func() {
				if d.r != nil {
					d.r.Columns()
					d.r.Metadata()
				} else {
					d.p.Columns()
					d.p.Metadata()
				}
			})
			return
		default:
			what = "reading closed rows"
			x.do(what, []string{"C14"}, func() {
				if d.r != nil {
					if x.r.Intn(2) == 0 {
						row, _, err = d.r.NextNeo()
					} else {
						_, _, err = d.r.All()
					}
				} else {
					row, _, _, err = d.p.NextPipeline()
				}
			})
		}
	case k < len(x.deadRows)+len(x.deadStmt):
		d := x.deadStmt[k-len(x.deadRows)]
		if x.r.Intn(2) == 0 {
			closing = true
			what = "Close() of a closed statement"
			x.do(what, []string{"C14"}, func() {
				if d.s != nil {
					err = d.s.Close()
				} else {
					err = d.p.Close()
				}
			})
			break
		}
		what = "using a closed statement"
		x.do(what, []string{"C14"}, func() {
			e := x.r.Intn(2) == 0
			switch {
			case d.s != nil && e:
				_, err = d.s.ExecNeo(nil)
			case d.s != nil:
				_, err = d.s.QueryNeo(nil)
			case e:
				_, err = d.p.ExecPipeline(nil)
			default:
				_, err = d.p.QueryPipeline(nil)
			}
		})
	default:
		d := x.deadTx[k-len(x.deadRows)-len(x.deadStmt)]
		what = "finishing a finished transaction"
		x.do(what, []string{"C13", "C14"}, func() {
			if x.r.Intn(2) == 0 {
				err = d.Commit()
			} else {
				err = d.Rollback()
			}
		})
		if !x.stop && err == nil {
			x.fail(x.tags("C13", "C14"), "%s was accepted", what)
		}
		x.c.Count("session.dead_handle_calls", 1)
		return
	}
	if x.stop {
		return
	}
	x.c.Count("session.dead_handle_calls", 1)
	if closing && err != nil {
		x.fail(x.tags("C14"), "%s failed: %s", what, firstLine(err))
	}
	if !closing && (err == nil || row != nil || err == io.EOF && !pipe) {
		x.fail(x.tags("C14", "C08"), "%s gave row %s, error %v", what, ref.Short(row), err)
	}
}

// opOldRows reads from the rows of an earlier query of the pipeline.
func (x *hist) opOldRows() {
	rs := x.st.rs
	o := rs.old[x.r.Intn(len(rs.old))]
	var row []interface{}
	var next bolt.PipelineRows
	var err error
	what := "NextPipeline() on an earlier query's rows"
	if !x.do(what, []string{"C08"}, func() { row, _, next, err = o.NextPipeline() }) {
		return
	}
	if row != nil || next != nil {
		x.fail(x.tags("C08", "C14"), "%s delivered row %s, next rows %v, error %v", what, ref.Short(row), next != nil, err)
	}
}

// opCheckout takes the connection of the pool again.
func (x *hist) opCheckout() {
	var cn bolt.Conn
	var err error
	if !x.do("pool.OpenPool()", []string{"C15", "C16"}, func() { cn, err = x.pool.OpenPool() }) {
		return
	}
	if err != nil || cn == nil {
		x.fail(x.tags("C15", "C16"), "checking out failed: %s", firstLine(err))
		return
	}
	if x.conn != nil {
		x.deadConns = append(x.deadConns, x.conn)
	}
	x.conn, x.closed = cn, false
	x.c.Count("session.checkouts", 1)
}

// opDeadConn uses a handle that was returned to the pool, whose network
// connection someone else has now.
func (x *hist) opDeadConn() {
	cn := x.deadConns[x.r.Intn(len(x.deadConns))]
	var err error
	what := "using a returned connection"
	closing := false
	x.sawGuard = true
	x.do(what, []string{"C14", "C15"}, func() {
		switch x.r.Intn(8) {
		case 0:
			_, err = cn.ExecNeo("dead", nil)
		case 1:
			_, err = cn.QueryNeo("dead", nil)
		case 2:
			_, _, _, err = cn.QueryNeoAll("dead", nil)
		case 3:
			_, err = cn.PrepareNeo("dead")
		case 4:
			_, err = cn.Begin()
		case 5:
			_, err = cn.QueryPipeline([]string{"dead"}, nil)
		case 6:
			_, err = cn.ExecPipeline([]string{"dead", "dead"}, nil, nil)
		default:
			closing = true
			err = cn.Close()
		}
	})
	if x.stop {
		return
	}
	x.c.Count("session.dead_handle_calls", 1)
	if (err == nil) != closing {
		x.fail(x.tags("C14"), "%s (closing %v) gave error %v", what, closing, err)
	}
}

func (x *hist) step() {
	r := x.r
	if x.pool != nil {
		switch {
		case x.closed && r.Intn(2) == 0:
			x.opCheckout()
			return
		case !x.closed && r.Intn(10) == 0:
			x.opConnClose()
			return
		case len(x.deadConns) > 0 && r.Intn(12) == 0:
			x.opDeadConn()
			return
		}
	}
	if x.closed || r.Intn(12) == 0 {
		switch r.Intn(3) {
		case 0, 1:
			x.opDead()
			return
		}
	}
	if r.Intn(40) == 0 && !x.closed {
		cs := chunkSizes[r.Intn(len(chunkSizes))]
		x.log("conn.SetChunkSize(%d)", cs)
		x.conn.SetChunkSize(cs)
	}
	// something the open statement should forbid, now and then
	if x.st != nil && r.Intn(10) != 0 {
		st := x.st
		if st.rs != nil {
			if len(st.rs.old) > 0 && r.Intn(6) == 0 {
				x.opOldRows()
				return
			}
			switch r.Intn(8) {
			case 0:
				x.opRowsClose()
			case 1:
				if !st.hidden {
					switch {
					case r.Intn(3) == 0:
						x.opStmtClose()
					case st.h != nil && r.Intn(2) == 0:
						x.opStmtExec()
					case st.h != nil:
						x.opStmtQuery()
					default:
						x.opPipeline(true)
					}
					return
				}
				x.opNext()
			case 2:
				if x.tx != nil && r.Intn(2) == 0 {
					x.endTx()
					return
				}
				x.opNext()
			default:
				x.opNext()
			}
			return
		}
		switch r.Intn(6) {
		case 0:
			x.opStmtClose()
		case 1:
			if x.tx != nil {
				x.endTx()
				return
			}
			fallthrough
		default:
			if st.p != nil {
				x.opPipeline(true)
			} else if r.Intn(2) == 0 {
				x.opStmtExec()
			} else {
				x.opStmtQuery()
			}
		}
		return
	}
	if x.tx != nil && r.Intn(5) == 0 {
		x.endTx()
		return
	}
	switch r.Intn(12) {
	case 0, 1:
		x.opConnExec()
	case 2, 3, 4:
		x.opConnQuery()
	case 5, 6:
		x.opPrepare()
	case 7:
		x.opPreparePipe()
	case 8, 9:
		x.opPipeline(false)
	case 10:
		if x.r.Intn(100) < x.failRate/3 && x.tx == nil && x.guardReason() == "" {
			x.armTxFail("BEGIN")
		}
		x.opBegin()
		x.disarm()
	case 11:
		if r.Intn(12) == 0 {
			x.opConnClose()
			return
		}
		x.opBegin()
	}
}

func (x *hist) endTx() {
	if x.r.Intn(2) == 0 {
		x.opCommit()
	} else {
		x.opRollback()
	}
}

// finish closes everything and evaluates the history as a whole.
func (x *hist) finish() {
	if x.stop {
		return
	}
	if !x.closed && x.r.Intn(4) != 0 {
		// close what is open, then a last query must still work
		if x.st != nil {
			if x.st.rs != nil {
				x.opRowsClose()
			}
			if x.st != nil && !x.stop {
				x.opStmtClose()
			}
		}
		if x.tx != nil && !x.stop {
			x.endTx()
		}
		fr, rr := x.failRate, x.refuseRate
		x.failRate, x.refuseRate = 0, 0
		if !x.stop {
			x.opConnExec()
		}
		if !x.stop {
			q := x.newQuery()
			x.opQueryAll(q, q.params, false)
		}
		x.failRate, x.refuseRate = fr, rr
	}
	if x.stop {
		return
	}
	x.opConnClose()
	for i := 0; i < 2 && !x.stop; i++ {
		x.opDead()
	}
	if !x.stop && x.r.Intn(2) == 0 {
		x.opConnClose()
	}
	if x.stop {
		return
	}
	x.after()
}

// after evaluates what the server saw.
func (x *hist) after() {
	if x.pool != nil {
		var err error
		if !x.do("pool.Close()", []string{"C17", "C26"}, func() { err = x.pool.Close() }) {
			return
		}
		if err != nil {
			x.fail([]string{"C17"}, "closing the pool failed: %s", firstLine(err))
			return
		}
	}
	for _, s := range x.srv.Sessions() {
		if !waitDone(s) {
			x.fail([]string{"C26"}, "the network connection was still open after conn.Close()")
			return
		}
	}
	if n := len(x.srv.Sessions()); n != 1 && x.pool == nil {
		x.fail([]string{"C09", "C26"}, "%d network connections were used for one Conn", n)
		return
	}
	for _, b := range x.srv.Breaches() {
		props := []string{"C09"}
		switch b.Kind {
		case "packstream":
			props = append(props, "C02", "C07")
		case "handshake":
			props = append(props, "C19")
		}
		x.fail(x.tags(props...), "the server received an illegal message: %s", b.What)
		return
	}
	var reqs []*boltsrv.Request
	for _, s := range x.srv.Sessions() {
		reqs = append(reqs, s.Requests()...)
	}
	inits := 1 - len(x.srv.Sessions())
	var runs []*boltsrv.Request
	for _, r := range reqs {
		switch r.Kind {
		case "INIT":
			inits++
		case "RUN":
			runs = append(runs, r)
		}
		x.c.Count("session.requests."+r.Kind, 1)
		x.c.Count("session.responses", int64(len(r.Responses)))
	}
	x.checkKept()
	if inits != 1 {
		x.fail([]string{"C09"}, "the server received %d INIT messages", inits)
		return
	}
	j := 0
	for _, r := range runs {
		for j < len(x.runs) && x.runs[j].opt && x.runs[j].text != r.Query {
			j++
		}
		if j >= len(x.runs) {
			x.fail(x.tags("C09", "C14"), "the server received a statement no call should have sent: %q", shortStr(r.Query))
			return
		}
		e := x.runs[j]
		if e.text != r.Query {
			x.fail(x.tags("C09"), "the server received statement %q where the calls made sent %q", shortStr(r.Query), shortStr(e.text))
			return
		}
		if ok, why := ref.Equal(e.params, r.Params); !ok {
			x.fail(x.tags("C09"), "parameters of %q arrived altered %s", shortStr(e.text), why)
			return
		}
		j++
	}
	for ; j < len(x.runs); j++ {
		if !x.runs[j].opt {
			x.fail(x.tags("C09"), "statement %q never reached the server", shortStr(x.runs[j].text))
			return
		}
	}
	count := map[string]int{}
	for _, e := range x.srv.Commits() {
		count[e]++
	}
	for _, q := range x.all {
		if q.sc.Effect == "" {
			continue
		}
		n := count[q.sc.Effect]
		switch {
		case q.effect == 1 && n != 1:
			x.fail(x.tags("C13", "C09"), "the work of %q took effect %d times, it should have once", shortStr(q.text), n)
			return
		case (q.effect == 0 || q.effect == -1) && n != 0:
			x.fail(x.tags("C13", "C09"), "the work of %q took effect although it was refused, failed or rolled back", shortStr(q.text))
			return
		case n > 1:
			x.fail(x.tags("C13", "C09"), "the work of %q took effect %d times", shortStr(q.text), n)
			return
		}
		x.c.Count("session.effects_checked", 1)
	}
	x.c.Count("session.histories", 1)
}

func waitDone(s *boltsrv.Session) bool {
	if s.Wait(2 * time.Second) {
		return true
	}
	// judged by heartbeats so that a starved machine is not blamed
	t := h.Ticks()
	for h.Ticks()-t < hangTicks {
		if s.Wait(20 * time.Millisecond) {
			return true
		}
	}
	return false
}

func newHist(c *h.Ctx, suite, name string, r *rand.Rand) *hist {
	x := &hist{c: c, suite: suite, name: name, r: r, scripts: map[string]*query{}}
	x.srv = boltsrv.New()
	x.srv.Handler = x.handler
	x.srv.TxFail = x.txFail
	x.srv.TxFailPull = x.txFailPull
	x.srv.Seed = r.Int63()
	x.srv.Frag = []int{0, 0, 1, 1, 2}[r.Intn(5)]
	x.srv.Chunk = []int{0, 0, 1, 7, 300, 65535}[r.Intn(6)]
	x.srv.Wide = r.Intn(3) == 0
	x.failRate = []int{0, 10, 25, 50}[r.Intn(4)]
	x.refuseRate = []int{0, 5, 20}[r.Intn(3)]
	if x.srv.Frag != 2 && x.srv.Chunk != 1 && r.Intn(4) == 0 && !ref.AllSmall {
		x.bigRate = 10
	}
	if r.Intn(6) == 0 {
		ar := rand.New(rand.NewSource(r.Int63()))
		x.srv.AckFail = func(s *boltsrv.Session) ref.Map {
			if _, tx := s.Status(); tx == "" && ar.Intn(2) == 0 {
				return refusals[ar.Intn(len(refusals))]
			}
			return nil
		}
	}
	return x
}

func sessionModel(c *h.Ctx) {
	const suite = "session.model"
	sessionHistories(c, suite, false, c.Pick(10000, 200000), "random histories of 8-60 API calls on one connection (exec, query, prepare, pipelines, reads, partial reads, closes, transactions, calls on busy and dead handles, unencodable parameters) against the monitoring server, which fails requests at random positions and fragments its output at random; every return value is compared with the model, every message with the Bolt v1 state machine, the RUN log and the committed effects with the calls made; a history is distinct by its trace of calls")
}

// poolSession runs the histories of session.model on the connection of a pool,
// which is returned in whatever state it is and checked out again in between.
func poolSession(c *h.Ctx) {
	sessionHistories(c, "pool.session", true, c.Pick(2500, 50000), "the histories of session.model on the connection of a pool of one, which is returned in the middle, with rows, statements and transactions open and after failures (of ROLLBACK too), and checked out again; the model starts anew at each checkout, earlier handles are used in between. Distinct by trace of calls")
}

func sessionHistories(c *h.Ctx, suite string, pooled bool, n int, rule string) {
	c.Rule(suite, rule)
	c.Each(suite, n, func(w, i int, name string) {
		r := c.Rand(suite, i)
		x := newHist(c, suite, name, r)
		suffix := ""
		if i%16 == 7 {
			e := tlsSetup()
			x.srv.TLS, suffix = e.srvCfg, e.suffix()
			x.log("over TLS")
			c.Count("session.tls", 1)
		}
		x.srv.Start()
		defer x.srv.Close()
		var err error
		steps := 8 + r.Intn(52)
		if pooled {
			if x.pool, err = bolt.NewClosableDriverPool(x.srv.URL()+suffix, 1); err != nil {
				x.fail([]string{"C15"}, "creating the pool failed: %s", firstLine(err))
				return
			}
			x.opCheckout()
			if x.stop {
				return
			}
			steps += r.Intn(60)
		} else if !x.do("OpenNeo", []string{"C08", "C19"}, func() { x.conn, err = bolt.NewDriver().OpenNeo(x.srv.URL() + suffix) }) {
			return
		}
		if err != nil {
			x.fail([]string{"C08", "C19", "C05"}, "opening failed: %s", firstLine(err))
			return
		}
		if r.Intn(2) == 0 {
			cs := chunkSizes[r.Intn(len(chunkSizes))]
			x.log("conn.SetChunkSize(%d)", cs)
			x.conn.SetChunkSize(cs)
		}
		for k := 0; k < steps && !x.stop; k++ {
			x.step()
			if x.closed && !pooled && k > 3 && r.Intn(4) == 0 {
				break
			}
		}
		x.finish()
		c.Eval(strings.Join(x.trace, "\n"))
		c.SampleN(suite, 3, func() interface{} {
			tr := x.trace
			if len(tr) > 25 {
				tr = tr[:25]
			}
			return map[string]interface{}{"suite": suite, "case": name, "calls": tr}
		})
	})
}
