package suites

import (
	"database/sql"
	"fmt"
	"io"
	"sync/atomic"

	bolt "github.com/johnnadratowski/golang-neo4j-bolt-driver"
	"github.com/johnnadratowski/golang-neo4j-bolt-driver/encoding"

	"vf/boltsrv"
	"vf/h"
	"vf/ref"
)

func init() {
	register(Suite{Name: "session.life", Props: []string{"C08", "C09", "C10", "C13", "C15", "C16", "C21", "C26"}, Run: sessionLife})
	register(Suite{Name: "session.bulk", Props: []string{"C08", "C10", "C21", "C22", "C23"}, Run: sessionBulk})
}

// sessionLife keeps one connection (or a pool of one, or a database/sql handle
// with one) in use for tens of thousands of calls.
func sessionLife(c *h.Ctx) {
	const suite = "session.life"
	c.Rule(suite, "one connection, a pool of one or a database/sql handle with one connection used for up to 70000 calls of one way of working (exec, query, prepared, pipelines, transactions with a second Begin in between, checkouts, failures): every answer must be that of its own request, every parameter arrive, no network connection be added or lost. Distinct by way of working")
	ways := []string{"exec", "query", "all", "stmt", "reused stmt", "execpipeline", "querypipeline", "tx", "fail", "pullfail", "refused", "partial", "pool", "pooltx", "poolfail", "poolhalf", "sql", "sqltx", "sqlquery", "sqlstmt", "sqlfail"}
	n := 2 * len(ways)
	c.Each(suite, n, func(w, i int, name string) {
		way := ways[i%len(ways)]
		total := c.Pick(2500, 20000)
		if i < len(ways) {
			total = c.Pick(300, 2000)
		}
		if i >= len(ways) && (way == "exec" || way == "pool" && c.Thorough) {
			total = 70000
		}
		var runs, fails int64
		srv := boltsrv.New()
		srv.Seed = int64(i)
		srv.Forget = true
		var bads atomic.Value
		srv.Handler = func(s *boltsrv.Session, q string, p interface{}) *boltsrv.Script {
			n := atomic.AddInt64(&runs, 1)
			m, _ := p.(map[string]interface{})
			if m == nil || m["n"] != n || q != "CREATE (n {n: $n})" {
				bads.CompareAndSwap(nil, fmt.Sprintf("statement %d arrived as %q with parameters %s", n, q, ref.Short(p)))
			}
			sc := &boltsrv.Script{
				RunMeta:  ref.Map{"fields": []interface{}{"n"}, "seq": n},
				PullMeta: ref.Map{"seq": n, "stats": ref.Map{"nodes-created": n}},
				Rows:     [][]interface{}{{n}},
			}
			if way == "partial" {
				sc.Rows = [][]interface{}{{n}, {n}, {n}}
			}
			if atomic.LoadInt64(&fails) != 0 {
				f := ref.Map{"code": "Neo.ClientError.Statement.SyntaxError", "message": fmt.Sprint(n)}
				if way == "pullfail" {
					sc.FailPull = f
				} else {
					sc.FailRun = f
				}
			}
			return sc
		}
		srv.Start()
		defer srv.Close()
		const text = "CREATE (n {n: $n})"
		var sent int64
		tags := []string{"C08", "C09", "C10"}
		switch {
		case way == "tx" || way == "pooltx" || way == "sqltx":
			tags = append(tags, "C13")
		}
		switch {
		case len(way) >= 4 && way[:4] == "pool":
			tags = append(tags, "C15", "C16", "C26")
		case len(way) >= 3 && way[:3] == "sql":
			tags = append(tags, "C21", "C26")
		}
		bad := func(f string, a ...interface{}) {
			if b := bads.Load(); b != nil {
				f, a = f+" (%s)", append(a, b)
			}
			viol(c, suite, name, tags, fmt.Sprintf("%s, call %d: ", way, sent)+fmt.Sprintf(f, a...))
		}
		params := func() map[string]interface{} { sent++; return map[string]interface{}{"n": sent} }
		args := func() []byte { b, _ := encoding.Marshal(params()); return b }
		result := func(what string, res interface {
			RowsAffected() (int64, error)
		}, err error) bool {
			if err != nil {
				bad("%s: %v", what, firstLine(err))
				return false
			}
			if k, err := res.RowsAffected(); err != nil || k != sent {
				bad("%s: answer %d instead of %d, %v", what, k, sent, err)
				return false
			}
			return true
		}
		rows := func(rs bolt.Rows, err error, toEnd bool) bool {
			if err != nil {
				bad("query: %v", firstLine(err))
				return false
			}
			d, _, err := rs.NextNeo()
			if err != nil || len(d) != 1 || d[0] != sent {
				bad("row %v, %v", d, err)
				return false
			}
			if toEnd {
				if _, m, err := rs.NextNeo(); err != io.EOF || m["seq"] != sent {
					bad("end %v, %v", m, err)
					return false
				}
			}
			if err := rs.Close(); err != nil {
				bad("closing the rows: %v", firstLine(err))
				return false
			}
			return true
		}
		failure := func(err error) bool {
			m, ok := failureMeta(err)
			if !ok || m["message"] != fmt.Sprint(sent) {
				bad("error %v instead of failure %d", err, sent)
				return false
			}
			return true
		}
		one := func(cn bolt.Conn) bool { // the way of working, once
			switch way {
			case "exec", "pool":
				res, err := cn.ExecNeo(text, params())
				return result("exec", res, err)
			case "query", "partial":
				rs, err := cn.QueryNeo(text, params())
				return rows(rs, err, way == "query")
			case "all":
				d, hm, m, err := cn.QueryNeoAll(text, params())
				if err != nil || len(d) != 1 || d[0][0] != sent || hm["seq"] != sent || m["seq"] != sent {
					bad("all gave %v %v %v %v", d, hm, m, err)
					return false
				}
			case "stmt":
				st, err := cn.PrepareNeo(text)
				if err != nil {
					bad("prepare: %v", firstLine(err))
					return false
				}
				rs, err := st.QueryNeo(params())
				if !rows(rs, err, true) {
					return false
				}
				if err := st.Close(); err != nil {
					bad("closing the statement: %v", firstLine(err))
					return false
				}
			case "execpipeline":
				res, err := cn.ExecPipeline([]string{text, text}, params(), params())
				if err != nil || len(res) != 2 {
					bad("pipeline: %d results, %v", len(res), err)
					return false
				}
				return result("pipeline", res[1], nil)
			case "querypipeline":
				p1, p2 := params(), params()
				prs, err := cn.QueryPipeline([]string{text, text}, p1, p2)
				if err != nil {
					bad("pipeline: %v", firstLine(err))
					return false
				}
				d, _, _, err := prs.NextPipeline()
				if err != nil || len(d) != 1 || d[0] != sent-1 {
					bad("pipeline row %v %v", d, err)
					return false
				}
				if err := prs.Close(); err != nil {
					bad("closing the pipeline: %v", firstLine(err))
					return false
				}
			case "tx", "pooltx":
				tx, err := cn.Begin()
				if err != nil {
					bad("begin: %v", firstLine(err))
					return false
				}
				if _, err := cn.Begin(); err == nil {
					bad("a second Begin within a transaction succeeded")
					return false
				}
				res, err := cn.ExecNeo(text, params())
				if !result("exec in a transaction", res, err) {
					return false
				}
				if sent%2 == 0 {
					err = tx.Commit()
				} else {
					err = tx.Rollback()
				}
				if err != nil {
					bad("ending the transaction: %v", firstLine(err))
					return false
				}
			case "fail", "pullfail", "poolfail":
				atomic.StoreInt64(&fails, 1)
				_, err := cn.ExecNeo(text, params())
				if !failure(err) {
					return false
				}
				if way == "pullfail" {
					rs, err := cn.QueryNeo(text, params())
					if err != nil {
						bad("query: %v", firstLine(err))
						return false
					}
					_, _, err = rs.NextNeo()
					if err == nil {
						_, _, err = rs.NextNeo()
					}
					if !failure(err) {
						return false
					}
					rs.Close()
				}
				atomic.StoreInt64(&fails, 0)
				res, err := cn.ExecNeo(text, params())
				return result("after a failure", res, err)
			case "refused":
				if _, err := cn.ExecNeo(text, map[string]interface{}{"n": make(chan int)}); err == nil {
					bad("a channel was accepted as a parameter")
					return false
				}
				res, err := cn.ExecNeo(text, params())
				return result("after a refusal", res, err)
			case "poolhalf": // returned with rows open
				rs, err := cn.QueryNeo(text, params())
				if err != nil || rs == nil {
					bad("query: %v", err)
					return false
				}
			}
			return true
		}
		o := h.Guard(4*hangTicks, srv.Activity, nil, func() {
			switch {
			case way[:2] == "po":
				p, err := bolt.NewClosableDriverPool(srv.URL(), 1)
				if err != nil {
					bad("pool: %v", firstLine(err))
					return
				}
				defer p.Close()
				for k := 0; k < total; k++ {
					cn, err := p.OpenPool()
					if err != nil {
						bad("checkout %d: %v", k, firstLine(err))
						return
					}
					ok := one(cn)
					cn.Close()
					if !ok {
						return
					}
				}
			case way[:2] == "sq":
				db, err := sql.Open("neo4j-bolt", srv.URL())
				if err != nil {
					bad("open: %v", err)
					return
				}
				defer db.Close()
				db.SetMaxOpenConns(1)
				for k := 0; k < total; k++ {
					switch way {
					case "sql":
						res, err := db.Exec(text, args())
						if !result("exec", res, err) {
							return
						}
					case "sqlquery":
						var got int64
						if err := db.QueryRow(text, args()).Scan(&got); err != nil || got != sent {
							bad("got %d, %v", got, err)
							return
						}
					case "sqlstmt":
						st, err := db.Prepare(text)
						if err != nil {
							bad("prepare: %v", err)
							return
						}
						res, err := st.Exec(args())
						if !result("exec", res, err) {
							return
						}
						st.Close()
					case "sqltx":
						tx, err := db.Begin()
						if err != nil {
							bad("begin: %v", err)
							return
						}
						res, err := tx.Exec(text, args())
						if !result("exec", res, err) {
							return
						}
						if err := tx.Commit(); err != nil {
							bad("commit: %v", err)
							return
						}
					case "sqlfail":
						atomic.StoreInt64(&fails, 1)
						if _, err := db.Exec(text, args()); !failure(err) {
							return
						}
						atomic.StoreInt64(&fails, 0)
						res, err := db.Exec(text, args())
						if !result("exec", res, err) {
							return
						}
					}
				}
			default:
				cn, err := bolt.NewDriver().OpenNeo(srv.URL())
				if err != nil {
					bad("open: %v", firstLine(err))
					return
				}
				defer cn.Close()
				if way == "reused stmt" {
					st, err := cn.PrepareNeo(text)
					if err != nil {
						bad("prepare: %v", firstLine(err))
						return
					}
					for k := 0; k < total; k++ {
						if k%2 == 0 {
							res, err := st.ExecNeo(params())
							if !result("exec", res, err) {
								return
							}
							continue
						}
						rs, err := st.QueryNeo(params())
						if !rows(rs, err, k%4 == 1) {
							return
						}
					}
					st.Close()
					return
				}
				for k := 0; k < total; k++ {
					if !one(cn) {
						return
					}
				}
			}
		})
		if o.Bad() {
			bad("%s", o.String())
		}
		if b := bads.Load(); b != nil {
			viol(c, suite, name, tags, fmt.Sprintf("%s: %s", way, b))
		}
		if k := len(srv.Sessions()); k != 1 && !o.Bad() && way != "poolhalf" {
			bad("%d network connections were used", k)
		}
		for _, b := range srv.Breaches() {
			viol(c, suite, name, []string{"C09"}, way+": protocol breach: "+b.Kind+" "+b.What)
		}
		c.Count("life.statements", sent)
		c.CountMax("life.longest", sent)
		c.Eval(fmt.Sprintf("%s %d", way, total))
	})
}

// sessionBulk reads results of very many rows.
func sessionBulk(c *h.Ctx) {
	const suite = "session.bulk"
	c.Rule(suite, "results of 1000 to 131072 rows read whole, row by row, in part and not at all, by every way of querying and executing, in pipelines and through database/sql, ending well or in a failure; every row, the header and the summary are compared and the connection must serve the next request. Distinct by way, number of rows and ending")
	sizes := []int{1000, 1023, 1024, 4095, 4096, 4097, 5000, 8192, 9999, 10000, 10001, 16384, 32767, 32768, 50000, 65535, 65536, 65537, 70000, 100000, 131072}
	ways := []string{"all", "stmtall", "next", "part", "unread", "exec", "stmtexec", "execpipeline", "querypipeline", "partpipeline", "sql", "sqlexec"}
	n := len(sizes) * len(ways) * 2
	if c.Tier == "quick" {
		n /= 2
	}
	c.EachW(suite, n, 8, func(w, i int, name string) {
		r := c.Rand(suite, i)
		way := ways[i%len(ways)]
		size := sizes[(i/len(ways))%len(sizes)]
		fails := r.Intn(4) == 0
		srv := boltsrv.New()
		srv.Seed = int64(i)
		srv.Forget = true
		mk := func(q string) *boltsrv.Script {
			sc := &boltsrv.Script{RunMeta: ref.Map{"fields": []interface{}{"i"}, "q": q}, PullMeta: ref.Map{"q": q, "stats": ref.Map{"nodes-created": int64(size)}}}
			if q == "big" {
				sc.Rows = make([][]interface{}, size)
				for k := range sc.Rows {
					sc.Rows[k] = []interface{}{int64(k)}
				}
				if fails {
					sc.FailPull, sc.FailPullAt = ref.Map{"code": "Neo.TransientError.General.OutOfMemoryError", "message": "m"}, size
				}
			}
			return sc
		}
		srv.Handler = func(s *boltsrv.Session, q string, p interface{}) *boltsrv.Script { return mk(q) }
		srv.Start()
		defer srv.Close()
		desc := fmt.Sprintf("%s, %d rows, failing %v", way, size, fails)
		bad := func(f string, a ...interface{}) {
			tags := []string{"C08", "C22", "C10", "C23"}
			if way[:2] == "sq" {
				tags = append(tags, "C21")
			}
			viol(c, suite, name, tags, desc+": "+fmt.Sprintf(f, a...))
		}
		all := func(d [][]interface{}) bool {
			if len(d) != size {
				bad("%d rows were returned", len(d))
				return false
			}
			for k := range d {
				if len(d[k]) != 1 || d[k][0] != int64(k) {
					bad("row %d is %v", k, d[k])
					return false
				}
			}
			c.Count("bulk.rows", int64(size))
			return true
		}
		ending := func(m map[string]interface{}, err error) bool {
			if fails {
				if fm, ok := failureMeta(err); !ok || fm["message"] != "m" {
					bad("ended with %v instead of the failure", err)
					return false
				}
				return true
			}
			if err != io.EOF && err != nil || m["q"] != "big" {
				bad("ended with %v, %v", m, err)
				return false
			}
			return true
		}
		o := h.Guard(4*hangTicks, srv.Activity, nil, func() {
			if way[:2] == "sq" {
				db, err := sql.Open("neo4j-bolt", srv.URL())
				if err != nil {
					bad("open: %v", err)
					return
				}
				defer db.Close()
				db.SetMaxOpenConns(1)
				if way == "sqlexec" {
					res, err := db.Exec("big")
					if (err != nil) != fails {
						bad("exec gave %v", err)
						return
					}
					if err == nil {
						if k, err := res.RowsAffected(); err != nil || k != int64(size) {
							bad("%d affected, %v", k, err)
							return
						}
					}
				} else {
					rs, err := db.Query("big")
					if err != nil {
						bad("query: %v", err)
						return
					}
					k := 0
					for rs.Next() {
						var v int64
						if err := rs.Scan(&v); err != nil || v != int64(k) {
							bad("row %d is %d, %v", k, v, err)
							return
						}
						k++
					}
					if k != size || (rs.Err() != nil) != fails {
						bad("%d rows, then %v", k, rs.Err())
						return
					}
					rs.Close()
				}
				res, err := db.Exec("next")
				if err != nil {
					bad("the next request: %v", err)
					return
				}
				if k, err := res.RowsAffected(); err != nil || k != int64(size) {
					bad("the next request: %d %v", k, err)
				}
				return
			}
			cn, err := bolt.NewDriver().OpenNeo(srv.URL())
			if err != nil {
				bad("open: %v", firstLine(err))
				return
			}
			defer cn.Close()
			var rs bolt.Rows
			var st bolt.Stmt
			execd := func(res bolt.Result, err error) bool {
				if fails {
					return ending(nil, err)
				}
				if err != nil || res == nil || res.Metadata()["q"] != "big" {
					bad("exec: %v %v", res, err)
					return false
				}
				if k, err := res.RowsAffected(); err != nil || k != int64(size) {
					bad("%d affected, %v", k, err)
					return false
				}
				return true
			}
			switch way {
			case "all":
				d, _, m, err := cn.QueryNeoAll("big", nil)
				if fails {
					if !ending(nil, err) {
						return
					}
				} else if err != nil || !all(d) || !ending(m, nil) {
					bad("error %v", err)
					return
				}
			case "stmtall", "next", "part", "unread":
				if way == "stmtall" || r.Intn(2) == 0 {
					if st, err = cn.PrepareNeo("big"); err == nil {
						rs, err = st.QueryNeo(nil)
					}
				} else {
					rs, err = cn.QueryNeo("big", nil)
				}
				if err != nil {
					bad("query: %v", firstLine(err))
					return
				}
				switch way {
				case "stmtall":
					d, m, err := rs.All()
					if fails {
						if !ending(nil, err) {
							return
						}
					} else if err != nil || !all(d) || !ending(m, nil) {
						bad("error %v", err)
						return
					}
				case "next", "part":
					upto := size
					if way == "part" {
						upto = r.Intn(size)
					}
					for k := 0; k < upto; k++ {
						d, _, err := rs.NextNeo()
						if err != nil || len(d) != 1 || d[0] != int64(k) {
							bad("row %d is %v, %v", k, d, err)
							return
						}
					}
					c.Count("bulk.rows", int64(upto))
					if way == "next" {
						_, m, err := rs.NextNeo()
						if !ending(m, err) {
							return
						}
					}
				}
				rs.Close()
				if st != nil {
					st.Close()
				}
			case "exec":
				if !execd(cn.ExecNeo("big", nil)) {
					return
				}
			case "stmtexec":
				if st, err = cn.PrepareNeo("big"); err != nil {
					bad("prepare: %v", err)
					return
				}
				if !execd(st.ExecNeo(nil)) {
					return
				}
				st.Close()
			case "execpipeline":
				res, err := cn.ExecPipeline([]string{"one", "big"}, nil, nil)
				if fails {
					if !ending(nil, err) {
						return
					}
				} else if err != nil || len(res) != 2 || !execd(res[1], nil) {
					bad("pipeline: %v", err)
					return
				}
			case "querypipeline", "partpipeline":
				qs := []string{"big", "two"}
				prs, err := cn.QueryPipeline(qs, nil, nil)
				if err != nil {
					bad("pipeline: %v", firstLine(err))
					return
				}
				upto := size
				if way == "partpipeline" {
					upto = r.Intn(size)
				}
				for k := 0; k < upto; k++ {
					d, _, _, err := prs.NextPipeline()
					if err != nil || len(d) != 1 || d[0] != int64(k) {
						bad("row %d is %v, %v", k, d, err)
						return
					}
				}
				c.Count("bulk.rows", int64(upto))
				if upto == size && !fails {
					d, _, next, err := prs.NextPipeline()
					if d != nil || err != nil || next == nil || next.Metadata()["q"] != "two" {
						bad("the end is %v %v, %v", d, next, err)
						return
					}
					prs = next
				}
				prs.Close()
			}
			res, err := cn.ExecNeo("next", nil)
			if err != nil || res.Metadata()["q"] != "next" {
				bad("the next request gave %v", err)
			}
		})
		if o.Bad() {
			bad("%s", o.String())
		}
		for _, b := range srv.Breaches() {
			bad("protocol breach: %s %s", b.Kind, b.What)
		}
		c.Eval(desc)
	})
}
