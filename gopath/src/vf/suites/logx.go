package suites

import (
	"bytes"
	"fmt"
	"io"
	l "log"
	"os"
	"strings"
	"sync"

	bolt "github.com/johnnadratowski/golang-neo4j-bolt-driver"
	"github.com/johnnadratowski/golang-neo4j-bolt-driver/log"

	"vf/boltsrv"
	"vf/h"
)

func init() {
	register(Suite{Name: "log.levels", Props: []string{"C27"}, Run: logLevels})
}

// sink counts what a logger writes and keeps the start of it.
type sink struct {
	mu    sync.Mutex
	n     int64
	first []byte
}

func (s *sink) Write(p []byte) (int, error) {
	s.mu.Lock()
	s.n++
	if len(s.first) < 300 {
		s.first = append(s.first, p...)
	}
	s.mu.Unlock()
	return len(p), nil
}

func (s *sink) take() (int64, string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	n, f := s.n, string(s.first)
	s.n, s.first = 0, nil
	return n, f
}

// captured runs fn with the process's standard output and error redirected,
// and returns what was written to them.
func captured(fn func()) string {
	r, w, err := os.Pipe()
	if err != nil {
		fn()
		return ""
	}
	so, se := os.Stdout, os.Stderr
	os.Stdout, os.Stderr = w, w
	var buf bytes.Buffer
	done := make(chan struct{})
	go func() { io.Copy(&buf, r); close(done) }()
	fn()
	os.Stdout, os.Stderr = so, se
	w.Close()
	<-done
	r.Close()
	return buf.String()
}

// logLevels runs the same work at every level. It owns the process's log
// settings, so it is the only suite of its property.
func logLevels(c *h.Ctx) {
	const suite = "log.levels"
	c.Rule(suite, "at the default level and at every level name (all spellings, unknown names): every logging function is called directly, and the same random session histories, fault programs, openings and failures are run; the loggers, the standard logger and the standard output are watched. Every history is judged by the session model at every level, and results, errors and messages must equal those at the default level. Distinct by level and history")
	bad := func(f string, a ...interface{}) {
		viol(c, suite, suite, []string{"C27"}, fmt.Sprintf(f, a...))
	}
	if log.GetLevel() != log.NoneLevel {
		bad("the level is %v at the start, not none", log.GetLevel())
	}
	if log.ErrorLog == nil || log.InfoLog == nil || log.TraceLog == nil {
		bad("a logger is missing")
		return
	}
	oe, oi, ot := log.ErrorLog, log.InfoLog, log.TraceLog
	var se, si, st, std sink
	log.ErrorLog, log.InfoLog, log.TraceLog = l.New(&se, "", 0), l.New(&si, "", 0), l.New(&st, "", 0)
	l.SetOutput(&std)
	defer func() {
		log.SetLevel("none")
		log.ErrorLog, log.InfoLog, log.TraceLog = oe, oi, ot
		l.SetOutput(os.Stderr)
	}()
	type lv struct {
		name string
		want log.Level
	}
	levels := []lv{{"(default)", log.NoneLevel}}
	for _, s := range []string{"trace", "TRACE", "Trace", "tRaCe"} {
		levels = append(levels, lv{s, log.TraceLevel})
	}
	for _, s := range []string{"info", "INFO", "Info"} {
		levels = append(levels, lv{s, log.InfoLevel})
	}
	for _, s := range []string{"error", "ERROR", "Error"} {
		levels = append(levels, lv{s, log.ErrorLevel})
	}
	for _, s := range []string{"", "none", "off", "debug", "warn", "warning", "fatal", "0", "1", "3", "traces", "tracee", " trace", "info ", "err", "errors", "all", "verbose", "\x00", "trace\n"} {
		levels = append(levels, lv{s, log.NoneLevel})
	}
	hist := c.Pick(500, 5000)
	base := map[int]string{}
	runHists := func(level string, n int) {
		var mu sync.Mutex
		c.Each(suite+"."+level, n, func(w, i int, name string) {
			tr := logHistory(c, suite, name, level, i)
			mu.Lock()
			if b, ok := base[i]; !ok {
				base[i] = tr
			} else if b != tr {
				viol(c, suite, name, []string{"C27"}, fmt.Sprintf("level %q: history %d ends differently: %s", level, i, diffLine(b, tr)))
			}
			mu.Unlock()
			c.Eval(level + tr)
		})
	}
	direct := func() {
		log.Trace("trace", 1, "x")
		log.Tracef("tracef %d %s", 1, "x")
		log.Info("info", 1)
		log.Infof("infof %v", map[string]int{"a": 1})
		log.Error("error", 1)
		log.Errorf("errorf %s", "x")
	}
	// the message reaches its own logger exactly when the level includes it
	matrix := func(x lv) {
		want := []int64{0, 0, 0}
		for k, at := range []log.Level{log.ErrorLevel, log.InfoLevel, log.TraceLevel} {
			if x.want >= at {
				want[k] = 2
			}
		}
		se.take()
		si.take()
		st.take()
		std.take()
		direct()
		ne, fe := se.take()
		ni, fi := si.take()
		nt, ft := st.take()
		ns, fs := std.take()
		if ne != want[0] || ni != want[1] || nt != want[2] || ns != 0 {
			bad("level %q: %d error, %d info, %d trace and %d other messages logged instead of %v", x.name, ne, ni, nt, ns, want)
		}
		if want[0] > 0 && fe != "error 1\nerrorf x\n" || want[1] > 0 && fi != "info 1\ninfof map[a:1]\n" || want[2] > 0 && ft != "trace 1 x\ntracef 1 x\n" {
			bad("level %q: messages were altered: %q %q %q %q", x.name, fe, fi, ft, fs)
		}
		c.Eval("direct " + x.name)
		c.Count("log.level_names", 1)
	}
	workload := func(x lv, n int) {
		out := captured(func() {
			se.take()
			si.take()
			st.take()
			std.take()
			runHists(x.name, n)
		})
		ne, fe := se.take()
		ni, fi := si.take()
		nt, ft := st.take()
		ns, fs := std.take()
		c.Count("log.error_messages", ne)
		c.Count("log.info_messages", ni)
		c.Count("log.trace_messages", nt)
		if x.want < log.ErrorLevel && ne > 0 {
			bad("level %q: the error logger got %q", x.name, trunc(fe, 200))
		}
		if x.want < log.InfoLevel && ni > 0 {
			bad("level %q: the info logger got %q", x.name, trunc(fi, 200))
		}
		if x.want < log.TraceLevel && nt > 0 {
			bad("level %q: the trace logger got %q", x.name, trunc(ft, 200))
		}
		if ns > 0 {
			bad("level %q: the standard logger got %q", x.name, trunc(fs, 200))
		}
		if out != "" {
			bad("level %q: the driver wrote to the standard output or error: %q", x.name, trunc(out, 200))
		}
		if log.GetLevel() != x.want {
			bad("level %q: work changed the level to %v", x.name, log.GetLevel())
		}
	}
	// work in which nothing goes wrong has nothing severe to say
	clean := func(x lv) {
		se.take()
		si.take()
		st.take()
		std.take()
		if why := cleanWork(c); why != "" {
			bad("level %q: work without failures: %s", x.name, why)
		}
		ne, fe := se.take()
		ni, _ := si.take()
		nt, _ := st.take()
		if ne > 0 {
			bad("level %q: in work without failures the error logger got %q", x.name, trunc(fe, 300))
		}
		c.Count("log.clean_info_messages", ni)
		c.Count("log.clean_trace_messages", nt)
		c.Eval("clean " + x.name)
	}
	for k, x := range levels {
		if k > 0 {
			// come from another level each time
			for j := 0; j < 4; j++ {
				log.SetLevel([]string{"trace", "error", "info", "nonsense"}[(k+j)%4])
				log.SetLevel(x.name)
				if log.GetLevel() != x.want {
					break
				}
			}
		}
		if log.GetLevel() != x.want {
			bad("after SetLevel(%q) the level is %v instead of %v", x.name, log.GetLevel(), x.want)
			continue
		}
		matrix(x)
		clean(x)
		switch x.name {
		case "(default)", "trace", "info", "error", "debug":
			workload(x, hist)
		default:
			workload(x, 4)
		}
	}
	c.Sample(map[string]interface{}{"suite": suite, "levels": len(levels), "histories_per_level": hist})
}

// cleanWork opens in every way and makes every kind of call; nothing fails.
func cleanWork(c *h.Ctx) (why string) {
	srv := openServer()
	srv.Start()
	defer srv.Close()
	must := func(what string, err error) {
		if err != nil && why == "" {
			why = what + ": " + firstLine(err)
		}
	}
	g := h.Guard(hangTicks, srv.Activity, nil, func() {
		for _, m := range openModes {
			for _, opt := range []string{"", "?timeout=30"} {
				o := openBy(m, srv.URL()+opt)
				must("opening by "+m, o.err)
				if o.err == nil {
					must("using "+m, o.use("x"))
					must("using "+m+" again", o.use("y"))
				}
				o.close()
			}
		}
		cn, err := bolt.NewDriver().OpenNeo(srv.URL())
		must("OpenNeo", err)
		if err != nil {
			return
		}
		tx, err := cn.Begin()
		must("Begin", err)
		_, err = cn.ExecNeo("a", map[string]interface{}{"password": "p"})
		must("ExecNeo", err)
		_, _, _, err = cn.QueryNeoAll("b", nil)
		must("QueryNeoAll", err)
		if tx != nil {
			must("Commit", tx.Commit())
		}
		rs, err := cn.QueryNeo("c", nil)
		must("QueryNeo", err)
		if err == nil {
			must("Close", rs.Close())
		}
		st, err := cn.PrepareNeo("d")
		must("PrepareNeo", err)
		if err == nil {
			_, err = st.ExecNeo(nil)
			must("Stmt.ExecNeo", err)
			rs, err = st.QueryNeo(nil)
			must("Stmt.QueryNeo", err)
			must("Stmt.Close", st.Close())
		}
		_, err = cn.ExecPipeline([]string{"e", "f"}, nil, nil)
		must("ExecPipeline", err)
		prs, err := cn.QueryPipeline([]string{"g", "h"}, nil, nil)
		must("QueryPipeline", err)
		if err == nil {
			prs.NextPipeline()
			must("Close", prs.Close())
		}
		tx, err = cn.Begin()
		must("Begin", err)
		if tx != nil {
			must("Rollback", tx.Rollback())
		}
		must("Close", cn.Close())
	})
	if g.Bad() {
		return g.String()
	}
	c.Count("log.clean_sessions", int64(len(srv.Sessions())))
	return
}

func diffLine(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range x {
		if i >= len(y) {
			return fmt.Sprintf("ends before %q", trunc(x[i], 200))
		}
		if x[i] != y[i] {
			return fmt.Sprintf("%q instead of %q", trunc(y[i], 200), trunc(x[i], 200))
		}
	}
	return fmt.Sprintf("goes on with %q", trunc(y[len(x)], 200))
}

// logHistory runs history i and returns what was seen of it, on both sides.
func logHistory(c *h.Ctx, suite, name, level string, i int) string {
	r := c.Rand(suite, i)
	var b strings.Builder
	switch i % 4 {
	case 0, 1: // a history under the session model
		x := newHist(c, suite, name, r)
		x.quiet = true
		// tracing dumps the whole read buffer at every read, slowly
		x.bigRate, x.small = 0, true
		if x.srv.Frag == 2 {
			x.srv.Frag = 1
		}
		x.srv.Start()
		defer x.srv.Close()
		var err error
		if !x.do("OpenNeo", nil, func() { x.conn, err = bolt.NewDriver().OpenNeo(x.srv.URL()) }) {
			return "hung"
		}
		if err != nil {
			return "opening failed: " + firstLine(err)
		}
		for k := 0; k < 25 && !x.stop; k++ {
			x.step()
		}
		x.finish()
		if x.failed != "" {
			return "the model disagrees: " + x.failed
		}
		for _, t := range x.trace {
			b.WriteString(t + "\n")
		}
		for _, s := range x.srv.Sessions() {
			for _, q := range s.Requests() {
				fmt.Fprintf(&b, "%s %q %v\n", q.Kind, q.Query, q.Params)
			}
		}
	case 2: // a fault program
		ps := progs()
		p := ps[r.Intn(len(ps))]
		if p.name == "big" {
			p = ps[0]
		}
		srv := p.server()
		at, in, do := int64(30+r.Intn(400)), r.Intn(2) == 0, []boltsrv.Action{boltsrv.FIN, boltsrv.RST}[r.Intn(2)]
		srv.Plans = func(n int) boltsrv.Plan {
			pl := boltsrv.NoFault()
			pl.Do = do
			if in {
				pl.In = at
			} else {
				pl.Out = at
			}
			return pl
		}
		srv.Start()
		defer srv.Close()
		clean, problem := p.clean(c, suite, nil, "")
		if problem != "" {
			return problem
		}
		x := newCutRun(c, suite, name, srv)
		x.quiet = true
		if x.open(srv.URL(), 0) {
			p.run(x)
			if !x.stop && x.firstErr >= 0 {
				x.battery()
			}
			if !x.stop {
				x.call("close", "conn.Close", func() (interface{}, error) { return nil, x.conn.Close() })
			}
		}
		// where exactly a dead connection is noticed depends on timing
		x.judge(clean, true, "program "+p.name)
		if x.failed != "" {
			return x.failed
		}
		fmt.Fprintf(&b, "program %s\n", p.name)
	default: // openings that succeed and fail
		us := []string{"", "?timeout=abc", "?timeout=9", "?tls=true", "/x"}
		u := us[r.Intn(len(us))]
		srv := openServer()
		mode := r.Intn(5)
		srv.Plans = func(n int) boltsrv.Plan {
			p := boltsrv.NoFault()
			switch mode {
			case 0:
				p.Version = []byte{0, 0, 0, 0}
			case 1:
				p.Init = [][]byte{{0xB1, 0x7F, 0xA0}}
			case 2:
				p.Out, p.Do = 4, boltsrv.FIN
			}
			if u == "?tls=true" {
				p.Version, p.Out, p.Do = []byte("HTTP/1.1 400 Bad\r\n\r\n"), 20, boltsrv.FIN
			}
			return p
		}
		srv.Start()
		defer srv.Close()
		om := openModes[r.Intn(4)]
		var o opened
		g := h.Guard(hangTicks, srv.Activity, nil, func() { o = openBy(om, srv.URL()+u) })
		if g.Bad() {
			return "opening: " + g.String()
		}
		fmt.Fprintf(&b, "open %s %d %q: %v\n", om, mode, u, o.err == nil)
		if o.err == nil {
			fmt.Fprintf(&b, "use: %v\n", o.use("x") == nil)
			o.close()
		}
	}
	return b.String()
}
