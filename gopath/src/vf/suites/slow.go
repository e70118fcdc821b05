package suites

import (
	"database/sql"
	"database/sql/driver"
	"fmt"
	"io"
	"strings"
	"time"

	bolt "github.com/johnnadratowski/golang-neo4j-bolt-driver"

	"vf/boltsrv"
	"vf/h"
	"vf/ref"
)

func init() {
	register(Suite{Name: "time.slow", Props: []string{"C08", "C11", "C12", "C13", "C16", "C19", "C21", "C22"}, Run: timeSlow})
	register(Suite{Name: "time.stall", Props: []string{"C11", "C19", "C12"}, Run: timeStall})
}

const (
	slowT    = 2 * time.Second // the driver's timeout
	slowGap  = 250 * time.Millisecond
	slowRows = 18 // slowRows*slowGap is well over slowT
)

func slowServer(gap time.Duration) *boltsrv.Server {
	srv := boltsrv.New()
	srv.Handler = func(s *boltsrv.Session, q string, p interface{}) *boltsrv.Script {
		sc := &boltsrv.Script{RunMeta: ref.Map{"fields": []interface{}{"q", "i"}}, PullMeta: ref.Map{"q": q}}
		n := 0
		if strings.HasPrefix(q, "slow") {
			n = slowRows
			sc.Gate = func(int) { time.Sleep(gap) }
		} else if strings.HasPrefix(q, "few") {
			n = 4
		} else if strings.HasPrefix(q, "late") {
			n = 1
			sc.Gate = func(i int) {
				if i == 0 {
					time.Sleep(gap)
				}
			}
		}
		for i := 0; i < n; i++ {
			sc.Rows = append(sc.Rows, []interface{}{q, int64(i)})
		}
		return sc
	}
	return srv
}

// slowCase is one way in which time passes; it returns what went wrong.
type slowCase struct {
	name  string
	props []string
	gap   time.Duration
	drip  bool
	run   func(x *slowRun) error
}

type slowRun struct {
	srv *boltsrv.Server
	url string
}

func (x *slowRun) open(viaURL bool) (bolt.Conn, error) {
	if viaURL {
		return bolt.NewDriver().OpenNeo(fmt.Sprintf("%s?timeout=%d", x.url, slowT/time.Second))
	}
	cn, err := bolt.NewDriver().OpenNeo(x.url)
	if err == nil {
		cn.SetTimeout(slowT)
	}
	return cn, err
}

func slowRead(rs bolt.Rows, q string, n int, pause time.Duration) error {
	for i := 0; i < n; i++ {
		time.Sleep(pause)
		d, _, err := rs.NextNeo()
		if err != nil || len(d) != 2 || d[0] != q || d[1] != int64(i) {
			return fmt.Errorf("row %d: %v %v", i, d, err)
		}
	}
	time.Sleep(pause)
	if _, m, err := rs.NextNeo(); err != io.EOF || m["q"] != q {
		return fmt.Errorf("the end: %v %v", m, err)
	}
	return rs.Close()
}

func slowAll(cn bolt.Conn, q string, n int) error {
	d, _, m, err := cn.QueryNeoAll(q, nil)
	if err != nil {
		return err
	}
	if len(d) != n || m["q"] != q {
		return fmt.Errorf("%d rows, summary %v", len(d), m)
	}
	for i := range d {
		if d[i][0] != q || d[i][1] != int64(i) {
			return fmt.Errorf("row %d is %v", i, d[i])
		}
	}
	return nil
}

func slowSQL(db interface {
	Query(string, ...interface{}) (*sql.Rows, error)
}, q string, n int, pause time.Duration) error {
	rows, err := db.Query(q)
	if err != nil {
		return err
	}
	defer rows.Close()
	i := 0
	for rows.Next() {
		time.Sleep(pause)
		var s string
		var k int
		if err := rows.Scan(&s, &k); err != nil || s != q || k != i {
			return fmt.Errorf("row %d: %q %d %v", i, s, k, err)
		}
		i++
	}
	if rows.Err() != nil || i != n {
		return fmt.Errorf("%d rows, %v", i, rows.Err())
	}
	return nil
}

// timeSlow lets time pass where that is nobody's fault.
func timeSlow(c *h.Ctx) {
	const suite = "time.slow"
	c.Rule(suite, "the configured timeout is 2 s and every single wait on the server is far shorter (250 ms), but the whole takes longer: rows that trickle, bytes that trickle, long executions and drains, and connections, rows, statements and transactions left idle longer than the timeout between calls; also raising the timeout. Everything must succeed with the right answer. A failure counts only when it happens three times in a row. Distinct by situation")
	direct := func(viaURL bool, f func(x *slowRun, cn bolt.Conn) error) func(x *slowRun) error {
		return func(x *slowRun) error {
			cn, err := x.open(viaURL)
			if err != nil {
				return err
			}
			defer cn.Close()
			if err := f(x, cn); err != nil {
				return err
			}
			return slowAll(cn, "few after", 4)
		}
	}
	idle := slowT + slowT/2
	var cases []slowCase
	add := func(name string, props []string, gap time.Duration, drip bool, run func(x *slowRun) error) {
		cases = append(cases, slowCase{name, props, gap, drip, run})
	}
	for _, viaURL := range []bool{false, true} {
		v := map[bool]string{false: " (SetTimeout)", true: " (timeout in the URL)"}[viaURL]
		p := []string{"C08", "C11"}
		if viaURL {
			p = append(p, "C19")
		}
		add("trickling rows, NextNeo"+v, p, slowGap, false, direct(viaURL, func(x *slowRun, cn bolt.Conn) error {
			rs, err := cn.QueryNeo("slow q", nil)
			if err != nil {
				return err
			}
			return slowRead(rs, "slow q", slowRows, 0)
		}))
		add("trickling rows, QueryNeoAll"+v, p, slowGap, false, direct(viaURL, func(x *slowRun, cn bolt.Conn) error {
			return slowAll(cn, "slow all", slowRows)
		}))
		add("trickling rows, ExecNeo"+v, p, slowGap, false, direct(viaURL, func(x *slowRun, cn bolt.Conn) error {
			_, err := cn.ExecNeo("slow exec", nil)
			return err
		}))
		add("trickling rows, close after the first"+v, append(p, "C22"), slowGap, false, direct(viaURL, func(x *slowRun, cn bolt.Conn) error {
			rs, err := cn.QueryNeo("slow close", nil)
			if err != nil {
				return err
			}
			if _, _, err := rs.NextNeo(); err != nil {
				return err
			}
			return rs.Close()
		}))
		add("trickling rows in a pipeline"+v, p, slowGap/2, false, direct(viaURL, func(x *slowRun, cn bolt.Conn) error {
			res, err := cn.ExecPipeline([]string{"slow 1", "few 2", "slow 3"}, nil, nil, nil)
			if err == nil && len(res) != 3 {
				err = fmt.Errorf("%d results", len(res))
			}
			return err
		}))
		add("trickling rows of a prepared query in a transaction"+v, append(p, "C13"), slowGap, false, direct(viaURL, func(x *slowRun, cn bolt.Conn) error {
			tx, err := cn.Begin()
			if err != nil {
				return err
			}
			st, err := cn.PrepareNeo("slow prepared")
			if err != nil {
				return err
			}
			rs, err := st.QueryNeo(nil)
			if err != nil {
				return err
			}
			if err := slowRead(rs, "slow prepared", slowRows, 0); err != nil {
				return err
			}
			st.Close()
			return tx.Commit()
		}))
		add("trickling bytes"+v, append(p, "C22"), 0, true, direct(viaURL, func(x *slowRun, cn bolt.Conn) error {
			return slowAll(cn, "few bytes", 4)
		}))
		add("an idle connection"+v, append(p, "C12"), 0, false, direct(viaURL, func(x *slowRun, cn bolt.Conn) error {
			time.Sleep(idle)
			if err := slowAll(cn, "few 1", 4); err != nil {
				return err
			}
			time.Sleep(idle)
			_, err := cn.ExecNeo("few 2", nil)
			return err
		}))
		add("idle rows"+v, append(p, "C22"), 0, false, direct(viaURL, func(x *slowRun, cn bolt.Conn) error {
			rs, err := cn.QueryNeo("few rows", nil)
			if err != nil {
				return err
			}
			if _, _, err := rs.NextNeo(); err != nil {
				return err
			}
			time.Sleep(idle)
			for i := 1; i < 4; i++ {
				if d, _, err := rs.NextNeo(); err != nil || d[1] != int64(i) {
					return fmt.Errorf("row %d: %v %v", i, d, err)
				}
			}
			time.Sleep(idle)
			if _, _, err := rs.NextNeo(); err != io.EOF {
				return fmt.Errorf("the end: %v", err)
			}
			return rs.Close()
		}))
		add("an idle prepared statement with unread rows"+v, append(p, "C22"), 0, false, direct(viaURL, func(x *slowRun, cn bolt.Conn) error {
			st, err := cn.PrepareNeo("few stmt")
			if err != nil {
				return err
			}
			time.Sleep(idle)
			rs, err := st.QueryNeo(nil)
			if err != nil {
				return err
			}
			time.Sleep(idle)
			if err := slowRead(rs, "few stmt", 4, 0); err != nil {
				return err
			}
			return st.Close()
		}))
		for _, commit := range []bool{true, false} {
			commit := commit
			add(fmt.Sprintf("an idle transaction%s, commit %v", v, commit), append(p, "C13"), 0, false, direct(viaURL, func(x *slowRun, cn bolt.Conn) error {
				tx, err := cn.Begin()
				if err != nil {
					return err
				}
				time.Sleep(idle)
				if _, err := cn.ExecNeo("few in", nil); err != nil {
					return err
				}
				time.Sleep(idle)
				if commit {
					return tx.Commit()
				}
				return tx.Rollback()
			}))
		}
	}
	add("an idle pool", []string{"C16", "C12", "C11"}, 0, false, func(x *slowRun) error {
		p, err := bolt.NewClosableDriverPool(fmt.Sprintf("%s?timeout=%d", x.url, slowT/time.Second), 2)
		if err != nil {
			return err
		}
		defer p.Close()
		for k := 0; k < 3; k++ {
			cn, err := p.OpenPool()
			if err != nil {
				return err
			}
			if err := slowAll(cn, "few pool", 4); err != nil {
				return err
			}
			if k == 1 {
				time.Sleep(idle)
				if err := slowAll(cn, "few pool held", 4); err != nil {
					return err
				}
			}
			if err := cn.Close(); err != nil {
				return err
			}
			time.Sleep(idle)
		}
		return nil
	})
	add("a pool user's transaction rolled back after a while", []string{"C16", "C13"}, 0, false, func(x *slowRun) error {
		p, err := bolt.NewClosableDriverPool(fmt.Sprintf("%s?timeout=%d", x.url, slowT/time.Second), 1)
		if err != nil {
			return err
		}
		defer p.Close()
		cn, err := p.OpenPool()
		if err != nil {
			return err
		}
		if _, err := cn.Begin(); err != nil {
			return err
		}
		rs, err := cn.QueryNeo("few tx", nil)
		if err != nil {
			return err
		}
		rs.NextNeo()
		time.Sleep(idle)
		if err := cn.Close(); err != nil {
			return err
		}
		cn, err = p.OpenPool()
		if err != nil {
			return err
		}
		defer cn.Close()
		return slowAll(cn, "few next", 4)
	})
	withDB := func(f func(db *sql.DB) error) func(x *slowRun) error {
		return func(x *slowRun) error {
			db, err := sql.Open("neo4j-bolt", fmt.Sprintf("%s?timeout=%d", x.url, slowT/time.Second))
			if err != nil {
				return err
			}
			defer db.Close()
			db.SetMaxOpenConns(1)
			if err := f(db); err != nil {
				return err
			}
			if n := len(x.srv.Sessions()); n != 1 {
				return fmt.Errorf("%d connections were made, the first one was never broken", n)
			}
			return nil
		}
	}
	psql := []string{"C21", "C12"}
	add("database/sql, trickling rows", psql, slowGap, false, withDB(func(db *sql.DB) error {
		if err := slowSQL(db, "slow sql", slowRows, 0); err != nil {
			return err
		}
		return slowSQL(db, "few sql", 4, 0)
	}))
	add("database/sql, slow reader", psql, 0, false, withDB(func(db *sql.DB) error {
		return slowSQL(db, "few sql", 4, slowT*3/4)
	}))
	add("database/sql, idle", psql, 0, false, withDB(func(db *sql.DB) error {
		for k := 0; k < 2; k++ {
			if err := slowSQL(db, "few sql", 4, 0); err != nil {
				return err
			}
			time.Sleep(idle)
		}
		tx, err := db.Begin()
		if err != nil {
			return err
		}
		time.Sleep(idle)
		if _, err := tx.Exec("few exec"); err != nil {
			return err
		}
		return tx.Commit()
	}))
	add("a raised timeout", []string{"C11", "C08"}, slowT, false, func(x *slowRun) error {
		// one wait of 2 s, which the first timeout would not have allowed
		cn, err := bolt.NewDriver().OpenNeo(x.url + "?timeout=1")
		if err != nil {
			return err
		}
		defer cn.Close()
		cn.SetTimeout(60 * time.Second)
		return slowAll(cn, "late raised", 1)
	})
	c.EachW(suite, len(cases), len(cases), func(w, i int, name string) {
		sc := cases[i]
		var fails []string
		for try := 0; try < 3; try++ {
			srv := slowServer(sc.gap)
			if sc.drip {
				srv.Drip, srv.DripSize = 100*time.Millisecond, 7
			}
			x := &slowRun{srv: srv, url: srv.URL()}
			srv.Start()
			var err error
			o := h.Guard(4000, srv.Activity, func() {
				for _, s := range srv.Sessions() {
					s.Kill(boltsrv.RST)
				}
			}, func() { err = sc.run(x) })
			srv.Close()
			if o.Bad() {
				err = fmt.Errorf("%s", o.String())
			}
			if err == nil {
				break
			}
			fails = append(fails, err.Error())
		}
		if len(fails) == 3 {
			viol(c, suite, name, sc.props, sc.name+": "+strings.Join(fails, "; then "))
		} else if len(fails) > 0 {
			c.Inconclusive("%s: %s", sc.name, strings.Join(fails, "; "))
		}
		c.Eval(sc.name)
		c.Count("slow.situations", 1)
		c.SampleN(suite, 3, func() interface{} { return map[string]interface{}{"suite": suite, "situation": sc.name} })
	})
}

// timeStall stops inside large pieces and after changes of the timeout.
func timeStall(c *h.Ctx) {
	const suite = "time.stall"
	c.Rule(suite, "the server falls silent inside rows of 10 to 300000 bytes sent in chunks of up to 65535 bytes, with the timeout set in the URL, set later, lowered while rows are open, and lowered after having been raised; every call must end in a bad-connection error within a few timeouts, not earlier than one timeout, and the connection must not be used again. Distinct by size, position and way of setting")
	type sc struct {
		size int
		at   int64
		how  int
		call int
	}
	var cases []sc
	for _, size := range []int{10, 1500, 60000, 65535, 300000} {
		for _, off := range []int64{1, 3, int64(size) / 2, int64(size) - 1} {
			for how := 0; how < 4; how++ {
				cases = append(cases, sc{size, off, how, (len(cases)) % 4})
			}
		}
	}
	c.EachW(suite, len(cases), len(cases), func(w, i int, name string) {
		tc := cases[i]
		desc := fmt.Sprintf("row of %d bytes, silence %d bytes into it, timeout way %d, call %d", tc.size, tc.at, tc.how, tc.call)
		mk := func(out int64) *boltsrv.Server {
			srv := boltsrv.New()
			big := strings.Repeat("x", tc.size)
			srv.Handler = func(s *boltsrv.Session, q string, p interface{}) *boltsrv.Script {
				sc := &boltsrv.Script{RunMeta: ref.Map{"fields": []interface{}{"a"}}}
				if q != "warm" {
					sc.Rows = [][]interface{}{{int64(1)}, {big}, {int64(2)}}
				}
				return sc
			}
			srv.Plans = func(n int) boltsrv.Plan {
				p := boltsrv.NoFault()
				if out > 0 {
					p.Out, p.Do = out, boltsrv.Stall
				}
				return p
			}
			srv.Start()
			return srv
		}
		// where the row starts: everything before it is the same in each run
		probe := mk(-1)
		start := int64(-1)
		func() {
			cn, err := bolt.NewDriver().OpenNeo(probe.URL())
			if err != nil {
				return
			}
			cn.ExecNeo("warm", nil)
			d, _, _, err := cn.QueryNeoAll("big", nil)
			cn.Close()
			if err != nil || len(d) != 3 {
				return
			}
			waitDone(probe.Sessions()[0])
			_, out := probe.Sessions()[0].Bytes()
			// after the big row come a row of an integer and the summary
			start = out - int64(tc.size) - 24
		}()
		probe.Close()
		if start < 0 {
			viol(c, suite, name, []string{"C11"}, desc+": the session without a stall failed")
			return
		}
		srv := mk(start + tc.at)
		defer srv.Close()
		const T = time.Second
		u := srv.URL()
		if tc.how == 0 {
			u += "?timeout=1"
		}
		cn, err := bolt.NewDriver().OpenNeo(u)
		if err != nil {
			viol(c, suite, name, []string{"C11"}, desc+": opening: "+err.Error())
			return
		}
		defer cn.Close()
		switch tc.how {
		case 1:
			cn.SetTimeout(T)
		case 2:
			cn.SetTimeout(300 * time.Second)
		}
		var res error
		var got int
		var t0 time.Time
		var k0 int64
		o := h.Guard(2000, nil, func() {
			for _, s := range srv.Sessions() {
				s.Kill(boltsrv.RST)
			}
		}, func() {
			cn.ExecNeo("warm", nil)
			if tc.how == 2 || tc.how == 3 && tc.call != 0 {
				cn.SetTimeout(T)
			}
			t0, k0 = time.Now(), h.Ticks()
			switch tc.call {
			case 0:
				rs, err := cn.QueryNeo("big", nil)
				if err != nil {
					res = err
					return
				}
				if tc.how == 3 {
					cn.SetTimeout(T)
				}
				for {
					_, _, err := rs.NextNeo()
					if err != nil {
						res = err
						return
					}
					got++
				}
			case 1:
				_, _, _, res = cn.QueryNeoAll("big", nil)
			case 2:
				_, res = cn.ExecNeo("big", nil)
			case 3:
				_, res = cn.ExecPipeline([]string{"big", "warm"}, nil, nil)
			}
		})
		el := time.Since(t0)
		c.Eval(desc)
		c.Count("stall.calls", 1)
		switch {
		case o.Bad():
			viol(c, suite, name, []string{"C11"}, desc+": "+o.String())
			return
		case res == nil || res == io.EOF:
			viol(c, suite, name, []string{"C11"}, fmt.Sprintf("%s: reported success (%v) although the answer never came", desc, res))
		case innermost(res) != driver.ErrBadConn:
			viol(c, suite, name, []string{"C11"}, fmt.Sprintf("%s: the innermost error is %v", desc, innermost(res)))
		case el < 900*time.Millisecond:
			viol(c, suite, name, []string{"C11"}, fmt.Sprintf("%s: gave up after %s", desc, el))
		case el > 6*time.Second && h.Ticks()-k0 > 900:
			viol(c, suite, name, []string{"C11"}, fmt.Sprintf("%s: gave up only after %s", desc, el))
		}
		in0, _ := srv.Sessions()[0].Bytes()
		if _, err := cn.ExecNeo("later", nil); err == nil {
			viol(c, suite, name, []string{"C12", "C11"}, desc+": a later call succeeded")
		}
		time.Sleep(20 * time.Millisecond)
		if in, _ := srv.Sessions()[0].Bytes(); in != in0 {
			viol(c, suite, name, []string{"C12"}, desc+": a later call was transmitted")
		}
	})
}
