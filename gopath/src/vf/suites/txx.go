package suites

import (
	"database/sql"
	"database/sql/driver"
	"fmt"
	"strings"
	"sync/atomic"

	bolt "github.com/johnnadratowski/golang-neo4j-bolt-driver"

	"vf/boltsrv"
	"vf/h"
	"vf/ref"
)

func init() {
	register(Suite{Name: "tx.reset", Props: []string{"C13", "C10"}, Run: txReset})
}

// txReset: work in a transaction whose session had to be reset must neither
// take effect nor be reported as committed.
func txReset(c *h.Ctx) {
	const suite = "tx.reset"
	c.Rule(suite, "transactions in which statements fail and the server refuses ACK_FAILURE, so that the session is reset and the transaction lost, followed by more statements, pipelines and prepared statements, commit or rollback, and work outside; plain, pooled and through database/sql. Effects must be committed exactly when the commit of their transaction was reported successful, which it must not be after a reset. Distinct by history")
	n := c.Pick(2500, 40000)
	modes := []string{"neo", "pool", "sql"}
	c.Each(suite, n, func(w, i int, name string) {
		r := c.Rand(suite, i)
		mode := modes[i%3]
		srv := boltsrv.New()
		srv.Frag = r.Intn(2)
		srv.Seed = int64(i)
		var resets int64
		ackRate := []int{0, 50, 100}[r.Intn(3)]
		ar := c.Rand(suite+".ack", i)
		srv.AckFail = func(s *boltsrv.Session) ref.Map {
			if ar.Intn(100) < ackRate {
				return refusals[ar.Intn(len(refusals))]
			}
			return nil
		}
		srv.OnRequest = func(s *boltsrv.Session, q *boltsrv.Request) {
			if q.Kind == "RESET" {
				atomic.AddInt64(&resets, 1)
			}
		}
		srv.Handler = func(s *boltsrv.Session, q string, p interface{}) *boltsrv.Script {
			sc := &boltsrv.Script{RunMeta: ref.Map{"fields": []interface{}{"a"}}, Rows: [][]interface{}{{q}, {q}}}
			switch {
			case strings.HasPrefix(q, "failrun"):
				sc.FailRun = oddFailMeta(q)
			case strings.HasPrefix(q, "failpull"):
				sc.FailPull, sc.FailPullAt = oddFailMeta(q), 1
			default:
				sc.Effect = q
			}
			return sc
		}
		srv.Start()
		defer srv.Close()
		var trace []string
		stop := false
		bad := func(f string, a ...interface{}) {
			if !stop {
				viol(c, suite, name, []string{"C13", "C10"}, mode+": "+fmt.Sprintf(f, a...), trace...)
			}
			stop = true
		}
		nq := 0
		text := func(pre string) string { nq++; return fmt.Sprintf("%s%d", pre, nq) }
		must := map[string]bool{}   // effects that must be there
		never := map[string]bool{}  // effects that must not be there
		var begin func() error      // starts a transaction
		var end func(bool) error    // commits or rolls back
		var exec func(string) error // executes a statement
		var conn bolt.Conn
		var reopen func() error // replaces the connection
		o := h.Guard(hangTicks, srv.Activity, nil, func() {
			switch mode {
			case "sql":
				db, err := sql.Open("neo4j-bolt", srv.URL())
				if err != nil {
					bad("%s", err)
					return
				}
				defer db.Close()
				db.SetMaxOpenConns(1)
				var tx *sql.Tx
				begin = func() (err error) { tx, err = db.Begin(); return }
				end = func(commit bool) error {
					t := tx
					tx = nil
					if commit {
						return t.Commit()
					}
					return t.Rollback()
				}
				exec = func(q string) error {
					if tx != nil {
						_, err := tx.Exec(q)
						return err
					}
					_, err := db.Exec(q)
					return err
				}
			default:
				open := func() (bolt.Conn, error) { return bolt.NewDriver().OpenNeo(srv.URL()) }
				if mode == "pool" {
					p, e := bolt.NewClosableDriverPool(srv.URL(), 1)
					if e != nil {
						bad("%s", e)
						return
					}
					defer p.Close()
					open = p.OpenPool
				}
				reopen = func() (err error) {
					if conn != nil {
						conn.Close()
					}
					conn, err = open()
					return
				}
				if err := reopen(); err != nil {
					bad("%s", err)
					return
				}
				defer func() { conn.Close() }()
				var tx driver.Tx
				begin = func() (err error) { tx, err = conn.Begin(); return }
				end = func(commit bool) error {
					if commit {
						return tx.Commit()
					}
					return tx.Rollback()
				}
				exec = func(q string) error {
					switch r.Intn(4) {
					case 0:
						_, _, _, err := conn.QueryNeoAll(q, nil)
						return err
					case 1:
						st, err := conn.PrepareNeo(q)
						if err != nil {
							return err
						}
						_, err = st.ExecNeo(nil)
						if e := st.Close(); err == nil {
							err = e
						}
						return err
					case 2:
						_, err := conn.ExecPipeline([]string{q}, nil)
						return err
					}
					_, err := conn.ExecNeo(q, nil)
					return err
				}
			}
			for k := 1 + r.Intn(4); k > 0 && !stop; k-- {
				if r.Intn(3) == 0 {
					q := text("out")
					err := exec(q)
					trace = append(trace, fmt.Sprintf("%s outside: %v", q, err == nil))
					if err != nil {
						bad("work outside of transactions failed: %s", firstLine(err))
						return
					}
					must[q] = true
				}
				if err := begin(); err != nil {
					bad("begin failed: %s", firstLine(err))
					return
				}
				trace = append(trace, "begin")
				r0 := atomic.LoadInt64(&resets)
				failed := false
				var done []string
				for j := r.Intn(6); j > 0 && !stop; j-- {
					kind := "in"
					if r.Intn(3) == 0 {
						kind = []string{"failrun", "failpull"}[r.Intn(2)]
					}
					q := text(kind)
					err := exec(q)
					trace = append(trace, fmt.Sprintf("%s: %v", q, err == nil))
					if kind != "in" {
						if err == nil {
							bad("%s succeeded", q)
							return
						}
						failed = true
						continue
					}
					if err == nil {
						if failed {
							bad("%s succeeded in a transaction that had failed", q)
							return
						}
						done = append(done, q)
					} else {
						if !failed {
							bad("%s failed: %s", q, firstLine(err))
							return
						}
						never[q] = true
					}
				}
				lostIn := atomic.LoadInt64(&resets) != r0
				commit := r.Intn(3) > 0
				err := end(commit)
				lost := atomic.LoadInt64(&resets) != r0
				trace = append(trace, fmt.Sprintf("end, commit %v: %v (session reset %v)", commit, err == nil, lost))
				c.Count("tx.ended", 1)
				if lost {
					c.Count("tx.lost_by_reset", 1)
				}
				if commit && err == nil {
					if failed {
						bad("a failed transaction was committed")
						return
					}
					for _, q := range done {
						must[q] = true
					}
				} else {
					if commit && !failed {
						bad("commit failed: %s", firstLine(err))
						return
					}
					if !commit && !failed && err != nil {
						bad("rollback failed: %s", firstLine(err))
						return
					}
					for _, q := range done {
						never[q] = true
					}
				}
				q := text("out")
				err = exec(q)
				trace = append(trace, fmt.Sprintf("%s outside: %v", q, err == nil))
				if err != nil && lostIn && reopen != nil {
					// a connection that lost its transaction may refuse all further work
					never[q] = true
					c.Count("tx.connection_given_up", 1)
					if err := reopen(); err != nil {
						bad("replacing the connection failed: %s", firstLine(err))
						return
					}
					continue
				}
				if err != nil {
					bad("the statement after the transaction failed: %s", firstLine(err))
					return
				}
				must[q] = true
			}
		})
		if o.Bad() {
			bad("%s", o.String())
		}
		if stop {
			return
		}
		count := map[string]int{}
		for _, e := range srv.Commits() {
			count[e]++
		}
		for q := range must {
			if count[q] != 1 {
				bad("%s took effect %d times although it was reported to have", q, count[q])
			}
		}
		for q := range never {
			if count[q] != 0 {
				bad("%s took effect although its transaction was not committed", q)
			}
		}
		for _, b := range srv.Breaches() {
			bad("protocol breach: %s %s", b.Kind, b.What)
		}
		c.Eval(mode + strings.Join(trace, ";"))
		c.SampleN(suite, 3, func() interface{} {
			return map[string]interface{}{"suite": suite, "mode": mode, "history": trace}
		})
	})
}
