package suites

import (
	"database/sql/driver"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"strings"
	"time"

	bolt "github.com/johnnadratowski/golang-neo4j-bolt-driver"

	"vf/boltsrv"
	"vf/h"
	"vf/ref"
)

func init() {
	register(Suite{Name: "record.play", Props: []string{"C25"}, Rec: true, Run: recordPlay})
}

// recordingDriver is set in the binary built with the overlay that gives
// access to the package's recorder.
var (
	recordingDriver func(name, connStr string) bolt.Driver
	playback        func(name string) net.Conn
)

// recRun executes a program of calls chosen by r and keeps what they gave.
type recRun struct {
	r     *rand.Rand
	cn    bolt.Conn
	out   []outcome
	nq    int
	srv   *boltsrv.Server // nil when playing back
	dead  bool
	rate  int
	big   bool
	quick bool
}

func (x *recRun) note(what string, val interface{}, err error) error {
	x.out = append(x.out, outcome{what: what, val: val, err: err, eof: err == io.EOF})
	return err
}

func (x *recRun) text() string {
	x.nq++
	s := fmt.Sprintf("Q%d", x.nq)
	if x.big && x.r.Intn(4) == 0 {
		s += strings.Repeat("z", x.r.Intn(90000)<<uint(x.r.Intn(7)*x.r.Intn(2)))
	}
	return s
}

func (x *recRun) params() map[string]interface{} {
	g := &ref.Gen{R: x.r, Budget: 10, Graph: true}
	if x.r.Intn(3) == 0 {
		return nil
	}
	return g.Props(2)
}

func recMeta(m map[string]interface{}) interface{} {
	if m == nil {
		return "none"
	}
	return m
}

func (x *recRun) readRows(what string, rs bolt.Rows) {
	for k := x.r.Intn(8); k >= 0; k-- {
		d, m, err := rs.NextNeo()
		if x.note(what+" next", []interface{}{d, recMeta(m)}, err) != nil {
			break
		}
	}
}

func (x *recRun) op(tx driver.Tx) {
	r := x.r
	switch r.Intn(9) {
	case 0, 1:
		q := x.text()
		res, err := x.cn.ExecNeo(q, x.params())
		var v interface{}
		if err == nil {
			n, e := res.RowsAffected()
			v = []interface{}{n, e == nil, recMeta(res.Metadata())}
		}
		x.note("exec "+trunc(q, 10), v, err)
	case 2:
		q := x.text()
		d, m1, m2, err := x.cn.QueryNeoAll(q, x.params())
		x.note("all "+trunc(q, 10), []interface{}{rowsVal(d), recMeta(m1), recMeta(m2)}, err)
	case 3:
		q := x.text()
		rs, err := x.cn.QueryNeo(q, x.params())
		if x.note("query "+trunc(q, 10), nil, err) != nil {
			return
		}
		x.note("columns", fmt.Sprint(rs.Columns()), nil)
		x.readRows("query", rs)
		x.note("close rows", nil, rs.Close())
	case 4:
		q := x.text()
		st, err := x.cn.PrepareNeo(q)
		if x.note("prepare", nil, err) != nil {
			return
		}
		for k := r.Intn(3); k >= 0; k-- {
			if r.Intn(2) == 0 {
				res, err := st.ExecNeo(x.params())
				var v interface{}
				if err == nil {
					v = recMeta(res.Metadata())
				}
				x.note("stmt exec", v, err)
				continue
			}
			rs, err := st.QueryNeo(x.params())
			if x.note("stmt query", nil, err) != nil {
				continue
			}
			if r.Intn(3) > 0 {
				x.readRows("stmt", rs)
			}
			x.note("stmt rows close", nil, rs.Close())
		}
		x.note("stmt close", nil, st.Close())
	case 5, 6:
		n := 1 + r.Intn(4)
		qs, ps := make([]string, n), make([]map[string]interface{}, n)
		for k := range qs {
			qs[k], ps[k] = x.text(), x.params()
		}
		if r.Intn(2) == 0 {
			res, err := x.cn.ExecPipeline(qs, ps...)
			v := []interface{}{}
			for _, p := range res {
				if p != nil {
					v = append(v, recMeta(p.Metadata()))
				}
			}
			x.note("exec pipeline", v, err)
			return
		}
		rs, err := x.cn.QueryPipeline(qs, ps...)
		if x.note("query pipeline", nil, err) != nil {
			return
		}
		first := rs
		for k := r.Intn(12); k >= 0; k-- {
			d, m, next, err := rs.NextPipeline()
			if x.note("pipeline next", []interface{}{d, recMeta(m), next != nil}, err) != nil {
				break
			}
			if next != nil {
				rs = next
			} else if d == nil {
				break
			}
		}
		x.note("pipeline close", nil, first.Close())
	case 7:
		if tx != nil {
			return
		}
		t, err := x.cn.Begin()
		if x.note("begin", nil, err) != nil {
			return
		}
		for k := r.Intn(4); k >= 0; k-- {
			x.op(t)
		}
		if r.Intn(2) == 0 {
			x.note("commit", nil, t.Commit())
		} else {
			x.note("rollback", nil, t.Rollback())
		}
	case 8:
		x.cn.SetChunkSize(chunkSizes[r.Intn(len(chunkSizes))])
	}
}

// program runs everything; extra adds a call that was not recorded.
func (x *recRun) program(drv bolt.Driver, url string, timeout time.Duration, extra bool) {
	cn, err := drv.OpenNeo(url)
	if x.note("open", nil, err) != nil {
		return
	}
	x.cn = cn
	if timeout > 0 {
		cn.SetTimeout(timeout)
	}
	for k := 2 + x.r.Intn(10); k > 0; k-- {
		x.op(nil)
	}
	if extra {
		_, err := cn.ExecNeo("one more", nil)
		x.note("extra", nil, err)
	}
	x.note("close", nil, cn.Close())
}

func recordPlay(c *h.Ctx) {
	const suite = "record.play"
	c.Rule(suite, "random programs of 2-12 operations (exec, query, partial reads, prepared statements, pipelines, transactions, chunk sizes, messages up to 90 kB, server failures) are recorded against a server that fragments and chunks at random or cuts, resets or silences the connection at a random byte, then played back without a server: every return value and error must be the same and the closing clean; playing one call more than was recorded must give an error. Distinct by the outcomes of the program")
	if recordingDriver == nil {
		c.Inconclusive("built without access to the recorder")
		return
	}
	os.Mkdir("recordings", 0755)
	os.Setenv("RECORD_OUTPUT", "1")
	n := c.Pick(2000, 40000)
	c.EachW(suite, n, 16, func(w, i int, name string) {
		seed := c.Rand(suite, i).Int63()
		kr := c.Rand(suite+".knobs", i)
		srv := boltsrv.New()
		srv.Seed = int64(i)
		srv.Frag = []int{0, 0, 1, 1, 2}[kr.Intn(5)]
		srv.Chunk = []int{0, 0, 1, 7, 300, 65535}[kr.Intn(6)]
		srv.Wide = kr.Intn(3) == 0
		rate := []int{0, 10, 30}[kr.Intn(3)]
		big := srv.Frag != 2 && srv.Chunk != 1 && kr.Intn(5) == 0
		fault := boltsrv.NoFault()
		timeout := time.Duration(0)
		if kr.Intn(3) == 0 {
			fault.Do = []boltsrv.Action{boltsrv.FIN, boltsrv.RST, boltsrv.Stall}[kr.Intn(3)]
			at := int64(1 + kr.Intn(1500))
			if fault.Do == boltsrv.Stall {
				at += 100
				timeout = shortTimeout
			}
			if kr.Intn(2) == 0 {
				fault.In = at
			} else {
				fault.Out = at
			}
		}
		srv.Plans = func(n int) boltsrv.Plan { return fault }
		srv.Handler = func(s *boltsrv.Session, q string, p interface{}) *boltsrv.Script {
			var hsh int64
			for _, b := range []byte(trunc(q, 8)) {
				hsh = hsh*31 + int64(b)
			}
			r := rand.New(rand.NewSource(seed + hsh))
			g := &ref.Gen{R: r, Budget: 12, Graph: true}
			sc := &boltsrv.Script{RunMeta: ref.Map{"fields": []interface{}{"a", "b"}}, PullMeta: ref.Map{"stats": map[string]interface{}{"nodes-created": int64(r.Intn(300))}}}
			for k := r.Intn(6); k > 0; k-- {
				v := g.WireValue(2)
				if big && r.Intn(3) == 0 {
					v = strings.Repeat("v", r.Intn(90000))
				}
				sc.Rows = append(sc.Rows, []interface{}{fmt.Sprintf("%s/%d", trunc(q, 8), k), v})
			}
			if r.Intn(100) < rate {
				m := oddFailMeta(g.String(r.Intn(20)))
				if r.Intn(2) == 0 {
					sc.FailRun = m
				} else {
					sc.FailPull, sc.FailPullAt = m, r.Intn(len(sc.Rows)+1)
				}
			}
			return sc
		}
		srv.Start()
		file := fmt.Sprintf("%s-%d", strings.Replace(suite, ".", "-", -1), i)
		defer os.Remove("recordings/" + file + ".json")
		desc := fmt.Sprintf("fragmentation %d, chunks %d, fault %s in %d out %d", srv.Frag, srv.Chunk, fault.Do, fault.In, fault.Out)
		if kr.Intn(4) == 0 { // an older, longer recording of that name
			os.WriteFile("recordings/"+file+".json", []byte("["+strings.Repeat(" ", 1000000)+"]"), 0644)
		}
		live := &recRun{r: rand.New(rand.NewSource(seed)), big: big}
		o := h.Guard(hangTicks, srv.Activity, func() {
			for _, s := range srv.Sessions() {
				s.Kill(boltsrv.RST)
			}
		}, func() { live.program(recordingDriver(file, srv.URL()), srv.URL(), timeout, false) })
		in, outb := int64(0), int64(0)
		if ss := srv.Sessions(); len(ss) > 0 && !o.Bad() {
			waitDone(ss[0])
			in, outb = ss[0].Bytes()
		}
		srv.Close()
		bad := func(f string, a ...interface{}) {
			var tr []string
			for _, o := range live.out {
				tr = append(tr, trunc(fmt.Sprintf("%s -> %s %s", o.what, ref.Short(o.val), cause(o.err)), 160))
			}
			viol(c, suite, name, []string{"C25"}, desc+": "+fmt.Sprintf(f, a...), tr...)
		}
		if o.Bad() {
			bad("recording: %s", o.String())
			return
		}
		if _, err := os.Stat("recordings/" + file + ".json"); err != nil {
			bad("no recording was written: %v", err)
			return
		}
		// loading an unreadable recording ends the process, so look first
		var ev []interface{}
		if f, err := os.Open("recordings/" + file + ".json"); err != nil || json.NewDecoder(f).Decode(&ev) != nil {
			bad("the recording is not readable: %v", err)
			return
		} else {
			f.Close()
		}
		play := func(extra bool) *recRun {
			p := &recRun{r: rand.New(rand.NewSource(seed)), big: big}
			o := h.Guard(hangTicks, func() int64 { return 0 }, nil, func() { p.program(recordingDriver(file, ""), "", timeout, extra) })
			if o.Bad() {
				bad("playing back: %s", o.String())
				return nil
			}
			return p
		}
		p := play(false)
		if p == nil {
			return
		}
		for k := range live.out {
			a := live.out[k]
			if k >= len(p.out) {
				bad("played back, %s (call %d) did not happen", a.what, k)
				return
			}
			b := p.out[k]
			if a.what != b.what {
				bad("call %d is %s, played back %s", k, a.what, b.what)
				return
			}
			if eq, why := ref.Equal(a.val, b.val); !eq {
				bad("%s (call %d) gave %s, played back %s: %s", a.what, k, ref.Short(a.val), ref.Short(b.val), why)
				return
			}
			if s, t := recCause(a.err), recCause(b.err); s != t {
				bad("%s (call %d) ended with %s, played back with %s", a.what, k, s, t)
				return
			}
			c.Count("record.calls_compared", 1)
			if a.err != nil {
				c.Count("record.errors_compared", 1)
			}
		}
		if len(p.out) > len(live.out) {
			bad("played back, %d more calls happened", len(p.out)-len(live.out))
			return
		}
		if e := play(true); e != nil {
			for _, o := range e.out {
				if o.what == "extra" && o.err == nil {
					bad("a call that was not recorded succeeded when playing back")
				}
			}
		}
		if fault.Do == boltsrv.None {
			why := ""
			o := h.Guard(hangTicks, nil, nil, func() { why = replayBytes(kr, file, in, outb) })
			if o.Bad() || why != "" {
				bad("reading and writing the recording directly: %s %s", o.String(), why)
				return
			}
			c.Count("record.direct", 1)
		}
		key := desc
		for _, o := range live.out {
			key += o.what + cause(o.err)
		}
		c.Eval(key)
		c.Count("record.events", int64(len(ev)))
		c.SampleN(suite, 3, func() interface{} {
			return map[string]interface{}{"suite": suite, "case": desc, "calls": len(live.out), "events": len(ev)}
		})
	})
}

// recCause is what an error comes down to: nothing, the end of the rows, a
// server failure with its metadata, a bad connection or another error.
func recCause(err error) string {
	if err == nil {
		return "ok"
	}
	if err == io.EOF {
		return "EOF"
	}
	if m, ok := failureMeta(err); ok {
		return fmt.Sprintf("failure %v", m)
	}
	if innermost(err) == driver.ErrBadConn {
		return "bad connection"
	}
	return "error"
}

// replayBytes plays a recording back in other pieces than it was recorded in:
// all that was exchanged must come, and then nothing more.
func replayBytes(r *rand.Rand, file string, in, out int64) string {
	p := playback(file)
	var got []byte
	wrote := int64(0)
	buf := make([]byte, 70000)
	for stuck := 0; stuck < 2; {
		// errors are slow, as they print the whole recording
		for ; ; stuck = 0 {
			n, err := p.Write(buf[:1])
			if err == nil && n != 1 {
				return "a write gave neither progress nor an error"
			}
			if err != nil {
				stuck++
				break
			}
			wrote++
		}
		for ; stuck < 2; stuck = 0 {
			n, err := p.Read(buf[:1+r.Intn(1+r.Intn(len(buf)))])
			if err == nil && n == 0 {
				return "a read gave neither data nor an error"
			}
			if err != nil {
				stuck++
				break
			}
			got = append(got, buf[:n]...)
		}
	}
	if int64(len(got)) != out || wrote != in {
		return fmt.Sprintf("%d bytes read and %d written instead of %d and %d", len(got), wrote, out, in)
	}
	for k := 0; k < 3; k++ {
		if n, err := p.Read(buf[:1+r.Intn(9)]); n != 0 || err == nil {
			return fmt.Sprintf("a read past the end gave %d bytes, %v", n, err)
		}
		if n, err := p.Write(buf[:1+r.Intn(9)]); n != 0 || err == nil {
			return fmt.Sprintf("a write past the end gave %d bytes, %v", n, err)
		}
	}
	return ""
}
