package suites

import (
	"database/sql"
	"database/sql/driver"
	"fmt"
	"hash/fnv"
	"io/ioutil"
	"math/rand"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	bolt "github.com/johnnadratowski/golang-neo4j-bolt-driver"
	"github.com/johnnadratowski/golang-neo4j-bolt-driver/encoding"
	blog "github.com/johnnadratowski/golang-neo4j-bolt-driver/log"

	"vf/boltsrv"
	"vf/h"
	"vf/ref"
)

func init() {
	register(Suite{Name: "conc.pool", Props: []string{"C18", "C15", "C17", "C16", "C08"}, Race: true, Run: concPool})
	register(Suite{Name: "conc.driver", Props: []string{"C18", "C08"}, Race: true, Run: concDriver})
	register(Suite{Name: "conc.close", Props: []string{"C17", "C18", "C26"}, Race: true, Run: concClose})
}

// conc is one concurrent execution.
type conc struct {
	c           *h.Ctx
	suite, name string
	srv         *boltsrv.Server
	max         int
	out         int64 // handles out now
	peak        int64
	faulty      int32 // kills were injected
	closed      int32 // the pool is being closed
	mu          sync.Mutex
	what        string
	props       []string
	next        int64
	order       []string // global order of checkouts and returns
	used        map[int][]int64
	done        int64
}

func (x *conc) fail(props []string, f string, a ...interface{}) {
	x.mu.Lock()
	if x.what == "" {
		x.what, x.props = fmt.Sprintf(f, a...), append(props[:len(props):len(props)], "C18")
	}
	x.mu.Unlock()
}

func (x *conc) failed() bool {
	x.mu.Lock()
	defer x.mu.Unlock()
	return x.what != ""
}

func (x *conc) event(f string, a ...interface{}) {
	x.mu.Lock()
	if len(x.order) < 4000 {
		x.order = append(x.order, fmt.Sprintf(f, a...))
	}
	x.mu.Unlock()
}

// concKey is what a request is about: its parameter k, or else its text. Many
// goroutines send the same texts with different parameters at the same time.
func concKey(q string, params interface{}) string {
	if m, ok := params.(ref.Map); ok {
		if k, ok := m["k"].(string); ok {
			return k
		}
	}
	return q
}

func concHandler(s *boltsrv.Session, q string, params interface{}) *boltsrv.Script {
	q = concKey(q, params)
	sc := &boltsrv.Script{RunMeta: ref.Map{"fields": []interface{}{"a", "b"}, "run": q}, PullMeta: ref.Map{"of": q, "stats": ref.Map{"nodes-created": int64(len(q))}}, Effect: q}
	for i := 0; i < 4; i++ {
		sc.Rows = append(sc.Rows, []interface{}{q, int64(i)})
	}
	if m, ok := params.(ref.Map); ok && m["v"] != nil {
		for i := range sc.Rows {
			sc.Rows[i] = []interface{}{q, m["v"]}
		}
	}
	if strings.Contains(q, "failrun") {
		sc.FailRun = failMeta(q)
	}
	if strings.Contains(q, "failpull") {
		sc.FailPull, sc.FailPullAt = failMeta(q), 2
	}
	return sc
}

// own checks that everything in a result belongs to q.
func own(q string, d [][]interface{}, meta map[string]interface{}) string {
	if len(d) != 4 {
		return fmt.Sprintf("%d rows instead of 4", len(d))
	}
	for i, r := range d {
		if len(r) != 2 || r[0] != q || r[1] != int64(i) {
			return fmt.Sprintf("row %d is %v", i, r)
		}
	}
	if meta != nil && meta["of"] != q {
		return fmt.Sprintf("metadata of %v", meta["of"])
	}
	return ""
}

// ask gives the text and parameters that make the server answer for q.
func ask(r *rand.Rand, q string) (string, map[string]interface{}) {
	switch r.Intn(3) {
	case 0:
		return q, nil
	case 1:
		return q, map[string]interface{}{"x": q, "n": int64(r.Intn(1000)), "l": []interface{}{1.5, nil, true, "a"}}
	}
	return []string{"RETURN {k}", "RETURN {k} AS k", "MATCH (n) RETURN n"}[r.Intn(3)], map[string]interface{}{"k": q}
}

// work does one thing on a connection; it returns an error of the connection
// (not a failure reported by the server) and whether a statement is left open.
func (x *conc) work(r *rand.Rand, cn bolt.Conn, tag string, leave bool) (err error, open bool) {
	k := r.Intn(10)
	if leave {
		k = r.Intn(14)
	}
	q := fmt.Sprintf("%s.%d", tag, atomic.AddInt64(&x.next, 1))
	bad := func(why string) {
		if why != "" {
			x.fail([]string{"C18", "C08"}, "%q got a result that isn't its own: %s", q, why)
		}
	}
	if r.Intn(8) == 0 {
		cn.SetChunkSize(uint16(1 + r.Intn(300)))
		cn.SetTimeout(time.Minute)
	}
	t, p := ask(r, q)
	switch k {
	case 0, 1:
		d, rm, m, e := cn.QueryNeoAll(t, p)
		if e == nil {
			bad(own(q, d, m))
			if rm["run"] != q {
				bad(fmt.Sprintf("run metadata %v", rm))
			}
		}
		return e, false
	case 2:
		res, e := cn.ExecNeo(t, p)
		if e == nil {
			if n, e2 := res.RowsAffected(); n != int64(len(q)) || e2 != nil || res.Metadata()["of"] != q {
				bad(fmt.Sprintf("%d rows affected, %v, metadata %v", n, e2, res.Metadata()))
			}
		}
		return e, false
	case 3:
		tx, e := cn.Begin()
		if e != nil {
			return e, false
		}
		d, _, m, e := cn.QueryNeoAll(t, p)
		if e != nil {
			tx.Rollback()
			return e, false
		}
		bad(own(q, d, m))
		if r.Intn(2) == 0 {
			return tx.Commit(), false
		}
		return tx.Rollback(), false
	case 4:
		q += " failrun"
		t, p = ask(r, q)
		_, e := cn.ExecNeo(t, p)
		if e == nil {
			bad("it did not fail")
			return nil, false
		}
		if m, ok := failureMeta(e); ok {
			if m["message"] != q {
				bad(fmt.Sprintf("failure %v", m))
			}
			if e.Error() == "" {
				bad("a failure without text")
			}
			return nil, false
		}
		return e, false
	case 5:
		ta, pa := ask(r, q+"a")
		tb, pb := ask(r, q+"b")
		rs, e := cn.ExecPipeline([]string{ta, tb}, pa, pb)
		if e == nil {
			if len(rs) != 2 || rs[0].Metadata()["of"] != q+"a" || rs[1].Metadata()["of"] != q+"b" {
				bad("pipeline results")
			}
		}
		return e, false
	case 6:
		st, e := cn.PrepareNeo(t)
		if e != nil {
			return e, false
		}
		defer st.Close()
		rows, e := st.QueryNeo(p)
		if e != nil {
			return e, false
		}
		if r.Intn(2) == 0 {
			return rows.Close(), false
		}
		if c := rows.Columns(); len(c) != 2 || c[0] != "a" || rows.Metadata()["run"] != q {
			bad(fmt.Sprintf("columns %q, metadata %v", c, rows.Metadata()))
		}
		d, m, e := rows.All()
		if e == nil {
			bad(own(q, d, m))
		}
		return e, false
	case 7: // a value there and back
		v := (&ref.Gen{R: r, Budget: 12, Graph: true}).GoValue(3)
		d, _, _, e := cn.QueryNeoAll("RETURN {v}", map[string]interface{}{"k": q, "v": v})
		if e != nil {
			return e, false
		}
		w, _ := ref.Wire(v)
		if want, verdict := ref.Expect(w); verdict == ref.MustValue && w != nil {
			for i := range d {
				if ok, why := ref.Equal([]interface{}{q, want}, d[i]); !ok {
					bad("row " + why)
				}
			}
		}
		if len(d) != 4 {
			bad(fmt.Sprintf("%d rows", len(d)))
		}
		return nil, false
	case 8: // a pipeline of queries
		n := 1 + r.Intn(4)
		var ts []string
		var ps []map[string]interface{}
		for i := 0; i < n; i++ {
			t, p := ask(r, fmt.Sprint(q, "p", i))
			ts, ps = append(ts, t), append(ps, p)
		}
		var rows bolt.PipelineRows
		var e error
		if r.Intn(2) == 0 {
			rows, e = cn.QueryPipeline(ts, ps...)
		} else {
			st, e2 := cn.PreparePipeline(ts...)
			if e2 != nil {
				return e2, false
			}
			defer st.Close()
			rows, e = st.QueryPipeline(ps...)
		}
		if e != nil {
			return e, false
		}
		first := rows
		for i := 0; i < n; i++ {
			want := fmt.Sprint(q, "p", i)
			if rows.Metadata()["run"] != want {
				bad(fmt.Sprintf("metadata of member %d is %v", i, rows.Metadata()))
			}
			for j := 0; j < 4; j++ {
				row, _, _, e := rows.NextPipeline()
				if e != nil {
					return e, false
				}
				if len(row) != 2 || row[0] != want || row[1] != int64(j) {
					bad(fmt.Sprintf("row %d of member %d is %v", j, i, row))
				}
			}
			if r.Intn(6) == 0 {
				break
			}
			_, _, next, e := rows.NextPipeline()
			if e != nil {
				return e, false
			}
			if i < n-1 {
				if next == nil {
					bad(fmt.Sprintf("no rows after member %d", i))
					break
				}
				rows = next
			}
		}
		return first.Close(), false
	case 9: // something that can't be encoded
		_, e := cn.ExecNeo(t, map[string]interface{}{"a": "b", "c": make(chan int)})
		if e == nil {
			bad("a channel was encoded")
		}
		d, _, m, e := cn.QueryNeoAll(t, p)
		if e == nil {
			bad(own(q, d, m))
		}
		return e, false
	case 10, 11:
		rows, e := cn.QueryNeo(t, p)
		if e != nil {
			return e, false
		}
		row, _, e := rows.NextNeo()
		if e == nil && (len(row) != 2 || row[0] != q) {
			bad(fmt.Sprintf("first row %v", row))
		}
		return e, true
	case 12:
		_, e := cn.Begin()
		if e != nil {
			return e, false
		}
		_, e = cn.ExecNeo(q+" lost", nil)
		return e, true
	default:
		rows, e := cn.QueryNeo(q+" failpull", nil)
		if e != nil {
			return e, false
		}
		_, _, e = rows.NextNeo()
		return e, true
	}
}

func (x *conc) jitter(r *rand.Rand) {
	switch r.Intn(6) {
	case 0:
		runtime.Gosched()
	case 1:
		time.Sleep(time.Duration(r.Intn(300)) * time.Microsecond)
	}
}

func (x *conc) goroutine(r *rand.Rand, g int, pool bolt.DriverPool, iters int) {
	defer func() {
		if p := recover(); p != nil {
			b := make([]byte, 16384)
			x.fail([]string{"C18", "C15", "C17"}, "panic in goroutine %d: %v\n%s", g, p, h.Trim(string(b[:runtime.Stack(b, false)])))
		}
		atomic.AddInt64(&x.done, 1)
	}()
	var old []bolt.Conn
	for i := 0; i < iters && !x.failed(); i++ {
		x.jitter(r)
		cn, err := pool.OpenPool()
		x.c.Count("conc.checkouts", 1)
		if err != nil {
			if atomic.LoadInt32(&x.closed) == 0 && atomic.LoadInt32(&x.faulty) == 0 {
				x.fail([]string{"C18", "C15"}, "OpenPool failed although the server accepts connections: %s", firstLine(err))
			}
			if atomic.LoadInt32(&x.closed) == 2 {
				return
			}
			continue
		}
		if n := atomic.AddInt64(&x.out, 1); n > int64(x.max) {
			x.fail([]string{"C15", "C18"}, "%d connections checked out of a pool of %d", n, x.max)
		} else {
			x.mu.Lock()
			if n > x.peak {
				x.peak = n
			}
			x.mu.Unlock()
		}
		id := atomic.AddInt64(&x.next, 1)
		x.event("out %d", id)
		tag := fmt.Sprintf("g%d h%d", g, id)
		for k := r.Intn(4); k > 0; k-- {
			x.jitter(r)
			err, open := x.work(r, cn, tag, k == 1)
			if err != nil && atomic.LoadInt32(&x.faulty) == 0 && atomic.LoadInt32(&x.closed) == 0 {
				x.fail([]string{"C18", "C15", "C16"}, "%s: a call failed without any fault: %s", tag, firstLine(err))
			}
			if err != nil || open {
				break
			}
		}
		atomic.AddInt64(&x.out, -1)
		x.event("back %d", id)
		cn.Close()
		if r.Intn(4) == 0 {
			cn.Close()
		}
		old = append(old, cn)
		if r.Intn(4) == 0 {
			o := old[r.Intn(len(old))]
			q := fmt.Sprintf("g%d dead%d", g, id)
			if _, err := o.ExecNeo(q, nil); err == nil {
				x.fail([]string{"C15", "C18"}, "an exec on a handle that was returned succeeded")
			}
		}
	}
}

// exclusive checks that the requests of different checkouts don't mix on any
// network connection.
func (x *conc) exclusive() {
	for _, s := range x.srv.Sessions() {
		seen := map[string]bool{}
		cur := ""
		for _, r := range s.Requests() {
			if r.Kind != "RUN" {
				continue
			}
			key := concKey(r.Query, r.Params)
			if !strings.HasPrefix(key, "g") {
				continue
			}
			f := strings.Fields(key)
			if len(f) < 2 {
				continue
			}
			if strings.HasPrefix(f[1], "dead") {
				x.fail([]string{"C15", "C18"}, "%q, run on a returned handle, reached the server", r.Query)
				return
			}
			owner := f[0] + " " + strings.SplitN(f[1], ".", 2)[0]
			if owner != cur {
				if seen[owner] {
					x.fail([]string{"C15", "C18"}, "requests of %s and %s are interleaved on one network connection", owner, cur)
					return
				}
				seen[owner] = true
				cur = owner
				x.c.Count("conc.handovers", 1)
			}
		}
	}
}

// settledLive waits until at most n connections are open.
func settledLive(srv *boltsrv.Server, n int64) bool {
	since := h.Ticks()
	for srv.Live() > n {
		if h.Ticks()-since > hangTicks {
			return false
		}
		time.Sleep(time.Millisecond)
	}
	return true
}

func concPool(c *h.Ctx) {
	const suite = "conc.pool"
	c.Rule(suite, "4-14 goroutines check connections out of one pool of 1-4, work, leave work open, return them (also twice) and use returned handles, under the race detector, with random scheduling delays, fragmented server output and, in some cases, connections killed by the server or the pool closed meanwhile; every result must be the goroutine's own, requests of different checkouts must not mix on one connection, at most max handles may be out, everybody must finish and exactly max slots must remain. Distinct by the order of checkouts and returns")
	n := c.Pick(600, 8000)
	blog.ErrorLog.SetOutput(ioutil.Discard)
	blog.InfoLog.SetOutput(ioutil.Discard)
	blog.TraceLog.SetOutput(ioutil.Discard)
	c.EachW(suite, n, 6, func(w, i int, name string) {
		concPoolOne(c, suite, name, i)
	})
	// the same with everything logged: the logging paths must not race either
	blog.SetLevel("trace")
	c.EachW(suite+".logged", c.Pick(12, 100), 4, func(w, i int, name string) {
		concPoolOne(c, suite, name, 1000000+i)
	})
	blog.SetLevel("")
}

func concPoolOne(c *h.Ctx, suite, name string, i int) {
	r := c.Rand(suite, i)
	x := &conc{c: c, suite: suite, name: name, srv: boltsrv.New(), max: 1 + r.Intn(4)}
	x.srv.Handler = concHandler
	x.srv.Frag = []int{0, 1}[r.Intn(2)]
	x.srv.Seed = int64(i)
	x.srv.Start()
	kills, closing := r.Intn(3) == 0, r.Intn(3) == 0
	pool, err := bolt.NewClosableDriverPool(x.srv.URL(), x.max)
	if err != nil {
		viol(c, suite, name, []string{"C18", "C15"}, "NewClosableDriverPool: "+firstLine(err))
		return
	}
	gs := 4 + r.Intn(11)
	iters := 4 + r.Intn(8)
	var wg sync.WaitGroup
	o := h.Guard(4*hangTicks, x.srv.Activity, nil, func() {
		for g := 0; g < gs; g++ {
			wg.Add(1)
			go func(g int, r *rand.Rand) {
				defer wg.Done()
				x.goroutine(r, g, pool, iters)
			}(g, rand.New(rand.NewSource(r.Int63())))
		}
		stop := make(chan struct{})
		var cw sync.WaitGroup
		if kills {
			atomic.StoreInt32(&x.faulty, 1)
			cw.Add(1)
			kr := rand.New(rand.NewSource(r.Int63()))
			go func() {
				defer cw.Done()
				for {
					select {
					case <-stop:
						return
					case <-time.After(time.Duration(kr.Intn(3000)) * time.Microsecond):
					}
					ss := x.srv.Sessions()
					if len(ss) > 0 {
						s := ss[kr.Intn(len(ss))]
						if s.Inited() {
							s.Kill([]boltsrv.Action{boltsrv.FIN, boltsrv.RST, boltsrv.Half}[kr.Intn(3)])
						}
					}
				}
			}()
		}
		if closing {
			cw.Add(1)
			cr := rand.New(rand.NewSource(r.Int63()))
			go func() {
				defer cw.Done()
				time.Sleep(time.Duration(cr.Intn(20000)) * time.Microsecond)
				atomic.StoreInt32(&x.closed, 1)
				pool.Close()
				atomic.StoreInt32(&x.closed, 2)
				x.event("pool closed")
			}()
		}
		wg.Wait()
		close(stop)
		cw.Wait()
	})
	if o.Hung {
		x.fail([]string{"C18", "C15", "C17"}, "%d of %d goroutines never finished (pool of %d, kills %v, pool closed %v)\n%s", int64(gs)-atomic.LoadInt64(&x.done), gs, x.max, kills, closing, h.Trim(o.Stack))
	}
	if !x.failed() {
		x.exclusive()
	}
	if !x.failed() {
		if closing {
			if !settledLive(x.srv, 0) {
				x.fail([]string{"C17", "C26"}, "%d network connections still open after the pool was closed", x.srv.Live())
			}
			if _, err := pool.OpenPool(); err == nil {
				x.fail([]string{"C17"}, "OpenPool on a closed pool succeeded")
			}
		} else {
			x.remaining(pool)
		}
	}
	if !kills {
		for _, b := range x.srv.Breaches() {
			x.fail([]string{"C18", "C09", "C15"}, "protocol breach: %s %s", b.Kind, b.What)
		}
	}
	for _, e := range x.srv.Commits() {
		if strings.HasSuffix(e, "lost") {
			x.fail([]string{"C13", "C16"}, "%q, in a transaction that was never committed, took effect", e)
		}
	}
	x.mu.Lock()
	f := fnv.New64a()
	f.Write([]byte(strings.Join(x.order, ";")))
	key := fmt.Sprintf("%d %x", x.max, f.Sum64())
	ord := x.order
	what, props := x.what, x.props
	x.mu.Unlock()
	c.Eval(key)
	c.CountMax("conc.max_out", x.peak)
	c.Count("conc.goroutines", int64(gs))
	c.SampleN(suite, 2, func() interface{} {
		if len(ord) > 40 {
			ord = ord[:40]
		}
		return map[string]interface{}{"suite": suite, "case": name, "max": x.max, "goroutines": gs, "order": ord}
	})
	if what != "" {
		viol(c, suite, name, props, what)
	}
	if o.Hung {
		go x.srv.Close()
	} else {
		x.srv.Close()
	}
}

// remaining: exactly max connections can be checked out now.
func (x *conc) remaining(pool bolt.ClosableDriverPool) {
	var got []bolt.Conn
	for i := 0; i < x.max; i++ {
		var cn bolt.Conn
		var err error
		o := h.Guard(hangTicks, x.srv.Activity, nil, func() { cn, err = pool.OpenPool() })
		if o.Bad() || err != nil {
			x.fail([]string{"C15", "C18"}, "after all connections were returned only %d of %d could be checked out: %s %v", i, x.max, o.String(), err)
			return
		}
		got = append(got, cn)
	}
	extra := make(chan bolt.Conn, 1)
	go func() {
		if cn, err := pool.OpenPool(); err == nil {
			extra <- cn
		}
	}()
	select {
	case <-extra:
		x.fail([]string{"C15", "C18"}, "%d connections could be checked out of a pool of %d", x.max+1, x.max)
	case <-time.After(15 * time.Millisecond):
	}
	pool.Close()
	for _, cn := range got {
		cn.Close()
	}
	if !settledLive(x.srv, 0) {
		x.fail([]string{"C17", "C26"}, "%d network connections still open after the pool was closed", x.srv.Live())
	}
}

// concClose: closing against checkouts that are opening, waiting or working.
func concClose(c *h.Ctx) {
	const suite = "conc.close"
	c.Rule(suite, "a pool is closed while 2-8 goroutines wait for, open, use or return its connections, with the server delaying handshakes by random amounts, under the race detector; closing and everybody else must finish, every network connection must be closed and no checkout may succeed once closing has returned. Distinct by the order of events")
	n := c.Pick(1000, 15000)
	c.EachW(suite, n, 8, func(w, i int, name string) {
		r := c.Rand(suite, i)
		x := &conc{c: c, suite: suite, name: name, srv: boltsrv.New(), max: 1 + r.Intn(3)}
		x.srv.Handler = concHandler
		x.srv.Seed = int64(i)
		delay := time.Duration(r.Intn(4)) * time.Millisecond
		x.srv.OnAccept = func(s *boltsrv.Session) { time.Sleep(delay) }
		x.srv.Start()
		pool, err := bolt.NewClosableDriverPool(x.srv.URL(), x.max)
		if err != nil {
			viol(c, suite, name, []string{"C17", "C18"}, "NewClosableDriverPool: "+firstLine(err))
			return
		}
		gs := 2 + r.Intn(7)
		var stop int32
		o := h.Guard(2*hangTicks, x.srv.Activity, nil, func() {
			var wg sync.WaitGroup
			for g := 0; g < gs; g++ {
				wg.Add(1)
				go func(g int, r *rand.Rand) {
					defer wg.Done()
					defer func() {
						if p := recover(); p != nil {
							b := make([]byte, 16384)
							x.fail([]string{"C17", "C18"}, "panic: %v\n%s", p, h.Trim(string(b[:runtime.Stack(b, false)])))
						}
					}()
					for atomic.LoadInt32(&stop) == 0 {
						after := atomic.LoadInt32(&x.closed) == 2
						cn, err := pool.OpenPool()
						if err != nil {
							x.event("g%d refused", g)
							if atomic.LoadInt32(&x.closed) == 0 {
								x.fail([]string{"C17", "C15"}, "OpenPool failed before the pool was closed: %s", firstLine(err))
							}
							x.jitter(r)
							continue
						}
						if after {
							x.fail([]string{"C17"}, "OpenPool succeeded after closing the pool had returned")
						}
						x.event("g%d got", g)
						if r.Intn(2) == 0 {
							x.work(r, cn, fmt.Sprintf("g%d h%d", g, atomic.AddInt64(&x.next, 1)), r.Intn(2) == 0)
						}
						x.jitter(r)
						cn.Close()
						x.event("g%d back", g)
					}
				}(g, rand.New(rand.NewSource(r.Int63())))
			}
			time.Sleep(time.Duration(r.Intn(8000)) * time.Microsecond)
			atomic.StoreInt32(&x.closed, 1)
			x.event("closing")
			if r.Intn(3) == 0 { // two at once
				wg.Add(1)
				go func() { defer wg.Done(); pool.Close() }()
			}
			pool.Close()
			atomic.StoreInt32(&x.closed, 2)
			x.event("closed")
			time.Sleep(time.Duration(r.Intn(3000)) * time.Microsecond)
			atomic.StoreInt32(&stop, 1)
			wg.Wait()
		})
		if o.Hung {
			x.fail([]string{"C17", "C18"}, "closing the pool or the goroutines using it never finished\n%s", h.Trim(o.Stack))
		} else if !settledLive(x.srv, 0) {
			x.fail([]string{"C17", "C26"}, "%d network connections still open after the pool was closed", x.srv.Live())
		}
		x.mu.Lock()
		key := strings.Join(x.order, ";")
		what, props := x.what, x.props
		x.mu.Unlock()
		c.Eval(key)
		c.Count("conc.closes", 1)
		if what != "" {
			viol(c, suite, name, props, what)
		}
		if o.Hung {
			go x.srv.Close()
		} else {
			x.srv.Close()
		}
	})
}

// concDriver: one driver, many connections; and database/sql.
func concDriver(c *h.Ctx) {
	const suite = "conc.driver"
	c.Rule(suite, "6-16 goroutines open connections from one driver (or use one database/sql handle with 1-6 connections), work on them and close them at the same time under the race detector; every result must be the goroutine's own and the network connections must all be closed in the end. Distinct by the order of opens and closes")
	n := c.Pick(240, 4000)
	c.EachW(suite, n, 6, func(w, i int, name string) {
		r := c.Rand(suite, i)
		x := &conc{c: c, suite: suite, name: name, srv: boltsrv.New(), max: 1 << 20}
		x.srv.Handler = concHandler
		x.srv.Frag = r.Intn(2)
		x.srv.Seed = int64(i)
		x.srv.Start()
		gs := 6 + r.Intn(11)
		viaSQL := i%2 == 1
		drv := bolt.NewDriver()
		var db *sql.DB
		if viaSQL {
			var err error
			db, err = sql.Open("neo4j-bolt", x.srv.URL())
			if err != nil {
				viol(c, suite, name, []string{"C18", "C21"}, "sql.Open: "+firstLine(err))
				return
			}
			db.SetMaxOpenConns(1 + r.Intn(6))
			db.SetMaxIdleConns(r.Intn(4))
		}
		o := h.Guard(2*hangTicks, x.srv.Activity, nil, func() {
			var wg sync.WaitGroup
			for g := 0; g < gs; g++ {
				wg.Add(1)
				go func(g int, r *rand.Rand) {
					defer wg.Done()
					defer func() {
						if p := recover(); p != nil {
							b := make([]byte, 16384)
							x.fail([]string{"C18"}, "panic: %v\n%s", p, h.Trim(string(b[:runtime.Stack(b, false)])))
						}
					}()
					for k := 0; k < 4 && !x.failed(); k++ {
						x.jitter(r)
						id := atomic.AddInt64(&x.next, 1)
						if viaSQL {
							x.sqlWork(r, db, fmt.Sprintf("g%d s%d", g, id))
							continue
						}
						cn, err := drv.OpenNeo(x.srv.URL())
						if err != nil {
							x.fail([]string{"C18", "C19"}, "OpenNeo failed: %s", firstLine(err))
							return
						}
						x.event("open %d", g)
						for j := 0; j < 3; j++ {
							if err, open := x.work(r, cn, fmt.Sprintf("g%d h%d", g, id), j == 2); err != nil || open {
								if err != nil {
									x.fail([]string{"C18"}, "a call failed without any fault: %s", firstLine(err))
								}
								break
							}
						}
						x.event("close %d", g)
						cn.Close()
					}
				}(g, rand.New(rand.NewSource(r.Int63())))
			}
			wg.Wait()
			if db != nil {
				db.Close()
			}
		})
		if o.Hung {
			x.fail([]string{"C18"}, "the goroutines never finished\n%s", h.Trim(o.Stack))
		} else if !settledLive(x.srv, 0) {
			x.fail([]string{"C26", "C18"}, "%d network connections were never closed", x.srv.Live())
		}
		for _, b := range x.srv.Breaches() {
			x.fail([]string{"C18", "C09"}, "protocol breach: %s %s", b.Kind, b.What)
		}
		for _, e := range x.srv.Commits() {
			if strings.HasSuffix(e, "lost") {
				x.fail([]string{"C13"}, "%q, in a transaction that was never committed, took effect", e)
			}
		}
		x.mu.Lock()
		key := fmt.Sprint(viaSQL) + strings.Join(x.order, ";")
		what, props := x.what, x.props
		x.mu.Unlock()
		c.Eval(key)
		c.Count("conc.driver_goroutines", int64(gs))
		if what != "" {
			viol(c, suite, name, props, what)
		}
		if o.Hung {
			go x.srv.Close()
		} else {
			x.srv.Close()
		}
	})
}

func (x *conc) sqlWork(r *rand.Rand, db *sql.DB, tag string) {
	q := tag
	t, p := ask(r, q)
	var args []interface{}
	if p != nil {
		b, err := encoding.Marshal(p)
		if err != nil {
			x.fail([]string{"C18"}, "Marshal: %s", firstLine(err))
			return
		}
		args = []interface{}{b}
	}
	fail := func(f string, a ...interface{}) {
		x.fail([]string{"C18", "C21"}, "%q via database/sql: %s", q, fmt.Sprintf(f, a...))
	}
	switch r.Intn(5) {
	case 0:
		rows, err := db.Query(t, args...)
		if err != nil {
			fail("%s", firstLine(err))
			return
		}
		x.event("q %s", strings.Fields(tag)[0])
		n := 0
		for rows.Next() {
			var a string
			var b int64
			if err := rows.Scan(&a, &b); err != nil || a != q || b != int64(n) {
				fail("row %d is %q, %d, %v", n, a, b, err)
			}
			n++
			if r.Intn(6) == 0 {
				rows.Close()
				return
			}
		}
		if n != 4 || rows.Err() != nil {
			fail("%d rows, %v", n, rows.Err())
		}
		rows.Close()
	case 1:
		res, err := db.Exec(t, args...)
		if err != nil {
			fail("%s", firstLine(err))
			return
		}
		x.event("e %s", strings.Fields(tag)[0])
		if n, err := res.RowsAffected(); n != int64(len(q)) || err != nil {
			fail("%d rows affected, %v", n, err)
		}
	case 2:
		tx, err := db.Begin()
		if err != nil {
			fail("%s", firstLine(err))
			return
		}
		x.event("t %s", strings.Fields(tag)[0])
		commit := r.Intn(2) == 0
		if !commit {
			q += " lost"
		}
		if _, err := tx.Exec(q); err != nil {
			fail("%s", firstLine(err))
			tx.Rollback()
			return
		}
		if commit {
			err = tx.Commit()
		} else {
			err = tx.Rollback()
		}
		if err != nil {
			fail("%s", firstLine(err))
		}
	case 3:
		st, err := db.Prepare(t)
		if err != nil {
			fail("%s", firstLine(err))
			return
		}
		x.event("p %s", strings.Fields(tag)[0])
		for k := 0; k < 2; k++ {
			var a string
			var b int64
			if err := st.QueryRow(args...).Scan(&a, &b); err != nil || a != q || b != 0 {
				fail("row is %q, %d, %v", a, b, err)
			}
		}
		st.Close()
	case 4: // a value there and back
		v := (&ref.Gen{R: r, Budget: 12, Graph: true}).Node(2)
		b, err := encoding.Marshal(map[string]interface{}{"k": q, "v": v})
		if err != nil {
			fail("Marshal: %s", firstLine(err))
			return
		}
		var a string
		var got []byte
		if err := db.QueryRow("RETURN {v}", b).Scan(&a, &got); err != nil {
			fail("%s", firstLine(err))
			return
		}
		back, err := encoding.Unmarshal(got)
		w, _ := ref.Wire(v)
		want, _ := ref.Expect(w)
		if ok, why := ref.Equal(want, back); err != nil || !ok || a != q {
			fail("value changed: %v %s %q", err, why, a)
		}
	}
}

var _ driver.Conn = driver.Conn(nil)
