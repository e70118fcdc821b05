package suites

import (
	"context"
	"database/sql"
	"fmt"
	"io"
	"strings"
	"sync"
	"time"

	bolt "github.com/johnnadratowski/golang-neo4j-bolt-driver"

	"vf/boltsrv"
	"vf/h"
	"vf/ref"
)

func init() {
	register(Suite{Name: "stream.gate", Props: []string{"C22", "C08"}, Run: streamGate})
	register(Suite{Name: "stream.pipeline", Props: []string{"C22"}, Run: streamPipeline})
	register(Suite{Name: "stream.lazy", Props: []string{"C22", "C09"}, Run: streamLazy})
}

// gate lets the server send up to a position and no further. A position is
// query*1000000 + row; the response to RUN is row -1.
type gate struct {
	mu   sync.Mutex
	cond *sync.Cond
	pos  int
	open bool
	held int64 // how often the server had to wait
}

func newGate() *gate {
	g := &gate{pos: -1}
	g.cond = sync.NewCond(&g.mu)
	return g
}

func (g *gate) wait(pos int) {
	g.mu.Lock()
	if pos > g.pos && !g.open {
		g.held++
	}
	for pos > g.pos && !g.open {
		g.cond.Wait()
	}
	g.mu.Unlock()
}

func (g *gate) allow(pos int) {
	g.mu.Lock()
	if pos > g.pos {
		g.pos = pos
	}
	g.mu.Unlock()
	g.cond.Broadcast()
}

func (g *gate) release() {
	g.mu.Lock()
	g.open = true
	g.mu.Unlock()
	g.cond.Broadcast()
}

// settleHeld waits until the server is waiting at the gate.
func (g *gate) settleHeld(n int64) bool {
	for k := h.Ticks(); h.Ticks()-k < hangTicks; {
		g.mu.Lock()
		x := g.held
		g.mu.Unlock()
		if x >= n {
			return true
		}
		time.Sleep(100 * time.Microsecond)
	}
	return false
}

const perQuery = 1000000

var streamModes = []string{"conn", "stmt", "tx", "pipeline", "stmtpipeline", "sql", "sqlstmt", "sqltx"}

func streamGate(c *h.Ctx) {
	const suite = "stream.gate"
	c.Rule(suite, "a server that sends each row only once the client has returned the row before it (and the first only once the query call has returned), for results of 0-5000 rows of 1 byte to 200 kB, whole, fragmented and in small chunks, plain and over TLS, queried eight ways; a call that waits for output the server withholds hangs and is reported. Distinct by way, sizes and fragmentation")
	n := c.Pick(3000, 40000)
	c.Each(suite, n, func(w, i int, name string) {
		r := c.Rand(suite, i)
		mode := streamModes[i%len(streamModes)]
		g := newGate()
		srv := boltsrv.New()
		srv.Seed = int64(i)
		srv.Frag = []int{0, 0, 1, 2}[r.Intn(4)]
		srv.Chunk = []int{0, 0, 1, 7, 300, 65535}[r.Intn(6)]
		suffix := ""
		if r.Intn(8) == 0 {
			e := tlsSetup()
			srv.TLS, suffix = e.srvCfg, e.suffix()
		}
		nq := 1
		if strings.Contains(mode, "pipeline") {
			nq = 1 + r.Intn(4)
			if r.Intn(20) == 0 {
				nq = 1 + r.Intn(80)
			}
		}
		big := srv.Frag == 0 && srv.Chunk != 1 && srv.Chunk != 7 && r.Intn(4) == 0
		scripts := map[string]*boltsrv.Script{}
		var texts []string
		var rows [][][]interface{}
		for q := 0; q < nq; q++ {
			q := q
			k := r.Intn(8)
			if r.Intn(6) == 0 {
				k = r.Intn(40)
				if !big && r.Intn(4) == 0 {
					k = r.Intn([]int{300, 300, 5000}[r.Intn(3)])
				}
			}
			sc := &boltsrv.Script{RunMeta: ref.Map{"fields": []interface{}{"a", "b"}}, PullMeta: ref.Map{"type": "r"}}
			for j := 0; j < k; j++ {
				v := interface{}(int64(j))
				if big && r.Intn(3) == 0 {
					v = strings.Repeat("x", r.Intn(200000))
				}
				sc.Rows = append(sc.Rows, []interface{}{fmt.Sprintf("r%d.%d", q, j), v})
			}
			sc.Gate = func(j int) { g.wait(q*perQuery + j) }
			t := fmt.Sprintf("q%d", q)
			texts = append(texts, t)
			scripts[t] = sc
			rows = append(rows, sc.Rows)
		}
		srv.Handler = func(s *boltsrv.Session, q string, p interface{}) *boltsrv.Script { return scripts[q] }
		srv.Start()
		defer srv.Close()
		desc := fmt.Sprintf("%s, %d queries of %d rows, fragmentation %d, chunks %d%s", mode, nq, len(rows[0]), srv.Frag, srv.Chunk, suffix)
		bad := func(f string, a ...interface{}) {
			viol(c, suite, name, []string{"C22", "C08"}, desc+": "+fmt.Sprintf(f, a...))
		}
		ok := true
		do := func(what string, fn func() string) bool {
			why := ""
			o := h.Guard(hangTicks, srv.Activity, g.release, func() { why = fn() })
			if o.Hung {
				bad("%s did not return although the server had sent all it needs", what)
				ok = false
			} else if o.Panic != nil {
				bad("%s: %s", what, o.String())
				ok = false
			} else if why != "" {
				bad("%s: %s", what, why)
				ok = false
			}
			return ok
		}
		check := func(got []interface{}, q, j int) string {
			if eq, why := ref.Equal(rows[q][j], got); !eq {
				return why
			}
			c.Count("stream.rows_held", 1)
			return ""
		}
		defer g.release()
		if strings.HasPrefix(mode, "sql") {
			db, err := sql.Open("neo4j-bolt", srv.URL()+suffix)
			if err != nil {
				bad("open: %s", err)
				return
			}
			defer func() { g.release(); db.Close() }()
			db.SetMaxOpenConns(1)
			var rs *sql.Rows
			if !do("Query", func() string {
				var err error
				switch mode {
				case "sql":
					rs, err = db.Query(texts[0])
				case "sqlstmt":
					var st *sql.Stmt
					if st, err = db.Prepare(texts[0]); err == nil {
						rs, err = st.Query()
					}
				case "sqltx":
					var tx *sql.Tx
					if tx, err = db.Begin(); err == nil {
						rs, err = tx.Query(texts[0])
					}
				}
				if err != nil {
					return err.Error()
				}
				return ""
			}) {
				return
			}
			for j := range rows[0] {
				g.allow(j)
				if !do(fmt.Sprintf("Next for row %d", j), func() string {
					if !rs.Next() {
						return fmt.Sprintf("no row: %v", rs.Err())
					}
					var a, b interface{}
					if err := rs.Scan(&a, &b); err != nil {
						return err.Error()
					}
					return check([]interface{}{a, b}, 0, j)
				}) {
					return
				}
			}
			g.allow(perQuery - 1)
			do("Next at the end", func() string {
				if rs.Next() || rs.Err() != nil {
					return fmt.Sprintf("error %v or another row", rs.Err())
				}
				return ""
			})
			c.Eval(desc)
			return
		}
		var cn bolt.Conn
		if !do("OpenNeo", func() string {
			var err error
			if cn, err = bolt.NewDriver().OpenNeo(srv.URL() + suffix); err != nil {
				return err.Error()
			}
			return ""
		}) {
			return
		}
		defer func() { g.release(); cn.Close() }()
		var rs bolt.Rows
		var prs bolt.PipelineRows
		if !do("query", func() string {
			var err error
			switch mode {
			case "conn":
				rs, err = cn.QueryNeo(texts[0], nil)
			case "tx":
				if _, err = cn.Begin(); err == nil {
					rs, err = cn.QueryNeo(texts[0], nil)
				}
			case "stmt":
				var st bolt.Stmt
				if st, err = cn.PrepareNeo(texts[0]); err == nil {
					rs, err = st.QueryNeo(nil)
				}
			case "pipeline":
				prs, err = cn.QueryPipeline(texts, make([]map[string]interface{}, nq)...)
			case "stmtpipeline":
				var st bolt.PipelineStmt
				if st, err = cn.PreparePipeline(texts...); err == nil {
					prs, err = st.QueryPipeline(make([]map[string]interface{}, nq)...)
				}
			}
			if err != nil {
				return err.Error()
			}
			return ""
		}) {
			return
		}
		if rs != nil {
			for j := range rows[0] {
				g.allow(j)
				if !do(fmt.Sprintf("NextNeo for row %d", j), func() string {
					d, _, err := rs.NextNeo()
					if err != nil {
						return err.Error()
					}
					return check(d, 0, j)
				}) {
					return
				}
			}
			g.allow(perQuery - 1)
			do("NextNeo at the end", func() string {
				if d, _, err := rs.NextNeo(); err != io.EOF {
					return fmt.Sprintf("%v, %v", d, err)
				}
				return ""
			})
			c.Eval(desc)
			return
		}
		for q := 0; q < nq; q++ {
			for j := range rows[q] {
				g.allow(q*perQuery + j)
				if !do(fmt.Sprintf("NextPipeline for row %d of query %d", j, q), func() string {
					d, _, _, err := prs.NextPipeline()
					if err != nil {
						return err.Error()
					}
					return check(d, q, j)
				}) {
					return
				}
			}
			g.allow((q+1)*perQuery - 1) // the summary, and the answer to the next RUN
			if !do(fmt.Sprintf("NextPipeline at the end of query %d", q), func() string {
				d, _, next, err := prs.NextPipeline()
				if q < nq-1 {
					if err != nil || next == nil || d != nil {
						return fmt.Sprintf("%v, next rows %v, %v", d, next != nil, err)
					}
					prs = next
				} else if err != nil && err != io.EOF {
					return err.Error()
				}
				return ""
			}) {
				return
			}
		}
		c.Eval(desc)
		c.SampleN(suite, 3, func() interface{} { return map[string]interface{}{"suite": suite, "case": desc} })
	})
}

func streamPipeline(c *h.Ctx) {
	const suite = "stream.pipeline"
	c.Rule(suite, "pipelines of 1-60 queries, a few of up to 1100 or with large parameters, executed and queried, direct and prepared, with chunk sizes 1 to 65535, plain and over TLS, in and out of transactions, where the server answers nothing before all RUN messages of the pipeline have arrived. Distinct by way, length and chunk size")
	n := c.Pick(2000, 30000)
	c.Each(suite, n, func(w, i int, name string) {
		r := c.Rand(suite, i)
		mode := i % 4
		nq := 1 + r.Intn(12)
		if r.Intn(5) == 0 {
			nq = 20 + r.Intn(40)
		}
		blob := 0
		switch r.Intn(50) {
		case 0:
			nq = 100 + r.Intn(1000)
		case 1:
			blob = 1 + r.Intn(200000)
		}
		srv := boltsrv.New()
		suffix := ""
		if r.Intn(8) == 0 {
			e := tlsSetup()
			srv.TLS, suffix = e.srvCfg, e.suffix()
		}
		var mu sync.Mutex
		released := false
		base := int64(0)
		srv.Handler = func(s *boltsrv.Session, q string, p interface{}) *boltsrv.Script {
			return &boltsrv.Script{RunMeta: ref.Map{"fields": []interface{}{"a"}}, Rows: [][]interface{}{{q}}, PullMeta: ref.Map{"q": q}, Gate: func(j int) {
				if j != -1 {
					return
				}
				for {
					mu.Lock()
					rel := released || base < 0
					b := base
					mu.Unlock()
					k := s.RunsIn() - b
					if rel || k >= int64(nq) {
						return
					}
					time.Sleep(50 * time.Microsecond)
				}
			}}
		}
		srv.Start()
		defer srv.Close()
		cs := chunkSizes[r.Intn(len(chunkSizes))]
		desc := fmt.Sprintf("pipeline of %d queries, way %d, chunk size %d%s", nq, mode, cs, suffix)
		release := func() { mu.Lock(); released = true; mu.Unlock() }
		defer release()
		bad := func(f string, a ...interface{}) {
			viol(c, suite, name, []string{"C22"}, desc+": "+fmt.Sprintf(f, a...))
		}
		texts := make([]string, nq)
		params := make([]map[string]interface{}, nq)
		for k := range texts {
			texts[k] = fmt.Sprintf("q%d%s", k, strings.Repeat("y", r.Intn(100)))
			params[k] = map[string]interface{}{"k": int64(k)}
			if blob > 0 {
				cs = 65535
				params[k]["blob"] = strings.Repeat("b", r.Intn(blob))
			}
		}
		var cn bolt.Conn
		why := ""
		o := h.Guard(hangTicks, srv.Activity, release, func() {
			var err error
			if cn, err = bolt.NewDriver().OpenNeo(srv.URL() + suffix); err != nil {
				why = err.Error()
				return
			}
			cn.SetChunkSize(cs)
			if r.Intn(3) == 0 {
				if _, err = cn.Begin(); err != nil {
					why = err.Error()
					return
				}
				mu.Lock()
				base = 1
				mu.Unlock()
			}
			var res []bolt.Result
			var prs bolt.PipelineRows
			switch mode {
			case 0:
				res, err = cn.ExecPipeline(texts, params...)
			case 1:
				prs, err = cn.QueryPipeline(texts, params...)
			default:
				var st bolt.PipelineStmt
				if st, err = cn.PreparePipeline(texts...); err != nil {
					break
				}
				if mode == 2 {
					res, err = st.ExecPipeline(params...)
				} else {
					prs, err = st.QueryPipeline(params...)
				}
			}
			if err != nil {
				why = err.Error()
				return
			}
			if mode%2 == 0 {
				if len(res) != nq {
					why = fmt.Sprintf("%d results for %d queries", len(res), nq)
					return
				}
				for k, x := range res {
					if x.Metadata()["q"] != texts[k] {
						why = fmt.Sprintf("result %d is %v", k, x.Metadata())
						return
					}
				}
				return
			}
			for k := 0; k < nq; k++ {
				d, _, _, err := prs.NextPipeline()
				if err != nil || len(d) != 1 || d[0] != texts[k] {
					why = fmt.Sprintf("row of query %d: %v, %v", k, d, err)
					return
				}
				_, _, next, err := prs.NextPipeline()
				if k < nq-1 {
					if err != nil || next == nil {
						why = fmt.Sprintf("end of query %d: %v", k, err)
						return
					}
					prs = next
				} else if err != nil && err != io.EOF {
					why = fmt.Sprintf("end of pipeline: %v", err)
				}
			}
		})
		switch {
		case o.Hung:
			got := int64(0)
			if ss := srv.Sessions(); len(ss) > 0 {
				got = ss[0].RunsIn()
			}
			bad("a response was awaited before all RUN messages were sent (%d in the end)", got)
		case o.Panic != nil:
			bad("%s", o.String())
		case why != "":
			bad("%s", why)
		}
		release()
		if cn != nil && !o.Hung {
			h.Guard(hangTicks, srv.Activity, nil, func() { cn.Close() })
		}
		c.Eval(desc)
		c.Count("stream.pipelined", int64(nq))
		c.CountMax("stream.longest_pipeline", int64(nq))
	})
}

func streamLazy(c *h.Ctx) {
	const suite = "stream.lazy"
	c.Rule(suite, "preparing (plain, pipeline, database/sql, in and out of transactions) must transmit nothing, and results of prepared queries of 0-20000 rows closed before the first row is read, by closing the rows or the statement, must be discarded: the server must get DISCARD_ALL and never PULL_ALL, and send no row. Distinct by way and size")
	n := c.Pick(1500, 15000)
	c.Each(suite, n, func(w, i int, name string) {
		r := c.Rand(suite, i)
		nrows := r.Intn(10)
		if r.Intn(6) == 0 {
			nrows = r.Intn(20000)
		}
		srv := boltsrv.New()
		var rows [][]interface{}
		for k := 0; k < nrows; k++ {
			rows = append(rows, []interface{}{int64(k)})
		}
		srv.Handler = func(s *boltsrv.Session, q string, p interface{}) *boltsrv.Script {
			sc := &boltsrv.Script{RunMeta: ref.Map{"fields": []interface{}{"a"}}}
			if strings.HasPrefix(q, "rows") {
				sc.Rows = rows
			}
			return sc
		}
		srv.Start()
		defer srv.Close()
		mode := i % 8
		inTx := r.Intn(3) == 0
		desc := fmt.Sprintf("way %d, %d rows, in a transaction %v", mode, nrows, inTx)
		why := ""
		var expect []string
		began := false
		o := h.Guard(hangTicks, srv.Activity, nil, func() {
			fail := func(err error) bool {
				if err != nil && why == "" {
					why = err.Error()
				}
				return err != nil
			}
			if mode >= 6 {
				db, err := sql.Open("neo4j-bolt", srv.URL())
				if fail(err) {
					return
				}
				defer db.Close()
				cn, err := db.Conn(context.Background())
				if fail(err) {
					return
				}
				defer cn.Close()
				st, err := cn.PrepareContext(context.Background(), "rows")
				if fail(err) {
					return
				}
				if mode == 6 {
					if fail(st.Close()) {
						return
					}
				} else {
					rs, err := st.Query()
					if fail(err) || fail(rs.Close()) {
						return
					}
					expect = append(expect, "RUN rows", "DISCARD_ALL")
				}
				_, err = cn.ExecContext(context.Background(), "marker")
				fail(err)
				return
			}
			cn, err := bolt.NewDriver().OpenNeo(srv.URL())
			if fail(err) {
				return
			}
			defer cn.Close()
			if inTx {
				if _, err := cn.Begin(); fail(err) {
					return
				}
				began = true
			}
			switch mode {
			case 0:
				st, err := cn.PrepareNeo("rows")
				if fail(err) || fail(st.Close()) {
					return
				}
			case 1:
				st, err := cn.PreparePipeline("rows", "rows2", "rows3")
				if fail(err) || fail(st.Close()) {
					return
				}
			case 2, 3, 4, 5:
				st, err := cn.PrepareNeo("rows")
				if fail(err) {
					return
				}
				for k := 1 + r.Intn(3); k > 0; k-- {
					rs, err := st.QueryNeo(nil)
					if fail(err) {
						return
					}
					expect = append(expect, "RUN rows", "DISCARD_ALL")
					if mode == 3 {
						break
					}
					if fail(rs.Close()) {
						return
					}
					if mode == 4 {
						fail(rs.Close())
					}
				}
				if fail(st.Close()) {
					return
				}
			}
			_, err = cn.ExecNeo("marker", nil)
			fail(err)
		})
		bad := func(f string, a ...interface{}) {
			viol(c, suite, name, []string{"C22", "C09"}, desc+": "+fmt.Sprintf(f, a...))
		}
		if o.Bad() || why != "" {
			bad("%s %s", o.String(), why)
			return
		}
		var got []string
		for _, q := range srv.Sessions()[0].Requests()[1:] {
			if q.Query == "marker" {
				break
			}
			k := q.Kind
			if k == "RUN" {
				k += " " + q.Query
			}
			got = append(got, k)
			for _, a := range q.Responses {
				if a.Sig == ref.SigRecord {
					bad("the server had to send a row nobody asked for")
					return
				}
			}
		}
		if began {
			if len(got) < 2 || got[0] != "RUN BEGIN" {
				bad("the server got %v", got)
				return
			}
			got = got[2:]
		}
		if strings.Join(got, ",") != strings.Join(expect, ",") {
			bad("the server got %v instead of %v", got, expect)
		}
		c.Eval(desc)
		c.Count("stream.discarded_rows", int64(nrows))
		c.SampleN(suite, 3, func() interface{} {
			return map[string]interface{}{"suite": suite, "case": desc, "messages": got}
		})
	})
}
