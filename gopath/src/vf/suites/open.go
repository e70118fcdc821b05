package suites

import (
	"database/sql"
	"database/sql/driver"
	"fmt"
	"net/url"
	"strings"
	"sync"
	"time"

	bolt "github.com/johnnadratowski/golang-neo4j-bolt-driver"

	"vf/boltsrv"
	"vf/h"
	"vf/ref"
)

func init() {
	register(Suite{Name: "open.url", Props: []string{"C15", "C17", "C19", "C26"}, Run: openURL})
	register(Suite{Name: "open.handshake", Props: []string{"C15", "C17", "C19", "C26", "C11", "C06", "C09", "C10", "C16"}, Run: openHandshake})
	register(Suite{Name: "open.timeout", Props: []string{"C19", "C11", "C26"}, Run: openTimeout})
}

var openModes = []string{"neo", "driver", "pool", "sql"}

// opened is what an attempt to open gave; use runs one statement.
type opened struct {
	err   error
	use   func(q string) error
	again func() error // a pool that couldn't open a connection tries once more
	close func()
}

// openBy opens a connection one of four ways.
func openBy(mode, u string) (o opened) {
	o.close = func() {}
	o.use = func(string) error { return fmt.Errorf("not open") }
	neo := func(cn bolt.Conn) {
		o.use = func(q string) error {
			d, _, _, err := cn.QueryNeoAll(q, nil)
			if err == nil && (len(d) != 1 || d[0][0] != q) {
				err = fmt.Errorf("got %v", d)
			}
			return err
		}
		o.close = func() { cn.Close() }
	}
	switch mode {
	case "neo":
		cn, err := bolt.NewDriver().OpenNeo(u)
		if o.err = err; err == nil {
			neo(cn)
		}
	case "driver":
		cn, err := bolt.NewDriver().Open(u)
		if o.err = err; err == nil {
			o.use = func(q string) error {
				st, err := cn.Prepare(q)
				if err != nil {
					return err
				}
				defer st.Close()
				_, err = st.Exec([]driver.Value{})
				return err
			}
			o.close = func() { cn.Close() }
		}
	case "pool":
		p, err := bolt.NewClosableDriverPool(u, 1)
		if err != nil {
			o.err = err
			return
		}
		cn, err := p.OpenPool()
		if o.err = err; err == nil {
			neo(cn)
			o.close = func() { cn.Close(); p.Close() }
		} else {
			o.again = func() error {
				cn, err := p.OpenPool()
				if err == nil {
					cn.Close()
				}
				return err
			}
			o.close = func() { p.Close() }
		}
	case "sql":
		db, err := sql.Open("neo4j-bolt", u)
		if err != nil {
			o.err = err
			return
		}
		db.SetMaxOpenConns(1)
		if err := db.Ping(); err != nil {
			o.err = err
			db.Close()
			return
		}
		o.use = func(q string) error {
			var s string
			err := db.QueryRow(q).Scan(&s)
			if err == nil && s != q {
				err = fmt.Errorf("got %q", s)
			}
			return err
		}
		o.close = func() { db.Close() }
	}
	return
}

func openServer() *boltsrv.Server {
	srv := boltsrv.New()
	srv.Handler = func(s *boltsrv.Session, q string, p interface{}) *boltsrv.Script {
		return &boltsrv.Script{RunMeta: ref.Map{"fields": []interface{}{"a"}}, Rows: [][]interface{}{{q}}}
	}
	return srv
}

// openCase opens one way and judges the outcome.
func openCase(c *h.Ctx, suite, name, desc, mode, u string, srv *boltsrv.Server, want bool, wantAuth ref.Map, props []string) (res opened, ok bool) {
	bad := func(p []string, f string, a ...interface{}) {
		viol(c, suite, name, p, fmt.Sprintf("%s (%s): ", desc, mode)+fmt.Sprintf(f, a...))
	}
	g := h.Guard(hangTicks, srv.Activity, func() {
		for _, s := range srv.Sessions() {
			s.Kill(boltsrv.RST)
		}
	}, func() { res = openBy(mode, u) })
	c.Eval(desc + mode)
	c.Count("open."+mode, 1)
	if g.Bad() {
		p := append(props[:len(props):len(props)], "C19", "C11")
		if mode == "pool" {
			p = append(p, "C15")
		}
		bad(p, "opening: %s", g.String())
		return
	}
	if (res.err == nil) != want {
		if mode == "pool" {
			props = append(props[:len(props):len(props)], "C16")
		}
		bad(props, "opening gave error %v", res.err)
		res.close()
		return
	}
	if !want {
		if res.again != nil && suite != "open.timeout" && !strings.HasSuffix(suite, ".hs") {
			for k := 0; k < 3; k++ {
				if k == 2 {
					res.close()
				}
				var err error
				g := h.Guard(hangTicks, srv.Activity, nil, func() { err = res.again() })
				switch {
				case g.Bad():
					bad([]string{"C15", "C17"}, "a failed checkout tried again (%d): %s", k, g.String())
					return
				case err == nil && k < 2:
					bad(props, "opening failed first, but succeeded when tried again (%d)", k)
				case err == nil:
					bad([]string{"C17"}, "a closed pool gave out a connection")
				}
			}
			c.Count("open.tried-again", 1)
		} else {
			res.close()
		}
		for _, s := range srv.Sessions() {
			for _, r := range s.Requests() {
				if r.Kind == "RUN" {
					bad(props, "a statement was sent although opening failed")
				}
			}
		}
		if !settledLive(srv, 0) {
			bad([]string{"C26", "C19"}, "the failed attempt left a network connection open")
		}
		for _, b := range srv.Breaches() {
			if !strings.HasPrefix(suite, "tls.") { // a plain server is given a TLS handshake there
				bad([]string{"C19", "C09"}, "protocol breach: %s %s", b.Kind, b.What)
			}
		}
		c.Count("open.refused", 1)
		return res, true
	}
	var err error
	q := "use " + name
	g = h.Guard(hangTicks, srv.Activity, nil, func() { err = res.use(q) })
	if g.Bad() || err != nil {
		bad(append(props, "C19"), "the first statement failed: %s %v", g.String(), err)
		res.close()
		return
	}
	ss := srv.Sessions()
	in := ss[len(ss)-1].Requests()[0]
	if wantAuth != nil {
		if eq, why := ref.Equal([]interface{}{bolt.ClientID, map[string]interface{}(wantAuth)}, in.Fields); in.Kind != "INIT" || !eq {
			bad([]string{"C19"}, "INIT carried %v: %s", in.Fields, why)
		}
	}
	res.close()
	if !settledLive(srv, 0) {
		bad([]string{"C26"}, "closing left a network connection open")
	}
	for _, b := range srv.Breaches() {
		bad([]string{"C19", "C09"}, "protocol breach: %s %s", b.Kind, b.What)
	}
	return res, true
}

func basicAuth(u, p string) ref.Map {
	return ref.Map{"scheme": "basic", "principal": u, "credentials": p}
}

var noAuth = ref.Map{"scheme": "none"}

// mapped spells an IPv4 address as an IPv6 one.
func mapped(a string) string {
	i := strings.LastIndexByte(a, ':')
	return "[::ffff:" + a[:i] + "]" + a[i:]
}

func openURL(c *h.Ctx) {
	const suite = "open.url"
	c.Rule(suite, "connection URLs: schemes in all spellings, users and passwords with every kind of character (percent-encoded), absent and empty parts, timeouts and TLS switches well and ill formed, unparsable URLs; opened plainly, as database/sql driver, from a pool and through database/sql; opening must succeed exactly for well formed URLs and INIT must carry the client name and exactly the credentials given. Distinct by URL and way of opening")
	type uc struct {
		desc string
		url  func(addr string) string
		want bool
		auth ref.Map
	}
	var cases []uc
	add := func(desc string, want bool, auth ref.Map, f func(addr string) string) {
		cases = append(cases, uc{desc, f, want, auth})
	}
	plain := func(pre, post string) func(string) string {
		return func(a string) string { return pre + a + post }
	}
	for _, s := range []string{"bolt", "BOLT", "Bolt", "bOlT"} {
		add("scheme "+s, true, noAuth, plain(s+"://", ""))
	}
	for _, s := range []string{"http://", "https://", "neo4j://", "bolt+s://", "bolts://", "bol://", "tcp://", "", "//", "://", "bolt+ssc://", "xbolt://"} {
		add("scheme "+s, false, nil, plain(s, ""))
	}
	add("user without password", false, nil, plain("bolt://bob@", ""))
	add("empty user, no password", false, nil, plain("bolt://@", ""))
	add("empty password", true, basicAuth("bob", ""), plain("bolt://bob:@", ""))
	add("empty user with password", true, noAuth, plain("bolt://:pw@", ""))
	add("path", true, noAuth, plain("bolt://", "/db/data"))
	add("simple", true, basicAuth("neo4j", "secret"), plain("bolt://neo4j:secret@", ""))
	add("colon in password", true, basicAuth("neo4j", "a:b:c"), plain("bolt://neo4j:a:b:c@", ""))
	add("escaped", true, basicAuth("us er@x/:", "p%20 w+d"), plain("bolt://us%20er%40x%2F%3A:p%2520%20w+d@", ""))
	for _, t := range []string{"abc", "1.5", "5s", "1e3", "0x10", "--5", "99999999999999999999", "5%20"} {
		add("timeout "+t, false, nil, plain("bolt://", "?timeout="+t))
	}
	for _, t := range []string{"5", "60", "007", "", "120", "255", "256", "300", "900", "999", "1000", "1800", "3599", "3600", "3601", "7200", "32767", "32768", "65535", "65536", "86400", "100000", "604800", "1000000", "31536000", "2147483647"} {
		add("timeout "+t, true, noAuth, plain("bolt://", "?timeout="+t))
	}
	for _, t := range []string{"false", "0", "no", "f", "off", ""} {
		add("tls "+t, true, noAuth, plain("bolt://", "?tls="+t+"&tls_no_verify=true&tls_ca_cert_file=/nonexistent"))
	}
	for _, t := range []string{"9223372036", "9000000000"} {
		add("timeout "+t, true, noAuth, plain("bolt://", "?timeout="+t))
	}
	// more seconds than a duration has room for
	for _, t := range []string{"9223372037", "10000000000", "18446744073", "18446744074", "18446744133", "36893488148", "9223372036854775807", "-9223372037"} {
		add("timeout "+t, false, nil, plain("bolt://", "?timeout="+t))
	}
	for _, q := range []string{"timeout=%zz", "tls=%zz", "x=%", "tls=false&y=%1", "%zz", "timeout=5;tls=true", "tls=true;timeout=5", "a=1;b=2", "timeout=7&other=%xy&tls=false", "tl%s=true"} {
		add("malformed options "+q, false, nil, plain("bolt://u:p@", "?"+q))
	}
	add("other options", true, basicAuth("u", "p"), plain("bolt://u:p@", "?foo=bar&timeout=9"))
	add("bad escape", false, nil, plain("bolt://%zz@", ""))
	add("bad escape in password", false, nil, plain("bolt://a:%q@", ""))
	add("control character", false, nil, plain("bolt://\x7f", ""))
	add("space in host", false, nil, func(a string) string { return "bolt://local host" })
	add("no port", false, nil, func(a string) string { return "bolt://127.0.0.1" })
	add("bad port", false, nil, func(a string) string { return "bolt://127.0.0.1:notaport" })
	add("empty", false, nil, func(a string) string { return "" })
	add("no host", false, nil, func(a string) string { return "bolt://" })
	add("closed port", false, nil, func(a string) string { return "bolt://127.0.0.1:1" })
	add("IPv6 address", true, basicAuth("u", "p"), func(a string) string { return "bolt://u:p@" + mapped(a) })
	add("IPv6 address and path", true, noAuth, func(a string) string { return "bolt://" + mapped(a) + "/db/data?timeout=8" })
	add("path, options, fragment", true, basicAuth("u", "p"), plain("bolt://u:p@", "/a/b:c@d?x=1&timeout=30&y=%20#frag"))
	fixed := len(cases)
	n := fixed + c.Pick(600, 10000)
	for i := fixed; i < n; i++ {
		r := c.Rand(suite, i)
		g := &ref.Gen{R: r, Budget: 5}
		user := g.String(1 + r.Intn(20))
		pw := g.String(r.Intn(30))
		if r.Intn(4) == 0 {
			b := make([]byte, 1+r.Intn(6))
			for j := range b {
				b[j] = byte(1 + r.Intn(126))
			}
			user = string(b)
		}
		if r.Intn(4) == 0 {
			pw = []string{":", "@", "/", "?", "#", "%", "+", " ", "a:b@c/d?e#f", "%41", "&timeout=1", "\\", "'\"", "\x00"}[r.Intn(14)]
		}
		esc, v6 := r.Intn(2) == 0, r.Intn(6) == 0
		post := []string{"", "", "", "/", "/db/data", "/x:1@y", "/%2F"}[r.Intn(7)]
		switch r.Intn(5) {
		case 0:
			post += fmt.Sprintf("?timeout=%d", 5+r.Intn(2000))
		case 1:
			post += "?other=" + url.QueryEscape(g.String(r.Intn(9)))
		case 2:
			post += fmt.Sprintf("?Timeout=no&a=1&timeout=%d&b=2#f", 5+r.Intn(2000))
		}
		add(fmt.Sprintf("user %q password %q, %q", user, pw, post), true, basicAuth(user, pw), func(a string) string {
			if v6 {
				a = mapped(a)
			}
			if esc {
				f := func(s string) string {
					o := ""
					for k := 0; k < len(s); k++ {
						o += fmt.Sprintf("%%%02X", s[k])
					}
					return o
				}
				return "bolt://" + f(user) + ":" + f(pw) + "@" + a + post
			}
			return (&url.URL{Scheme: "bolt", Host: a, User: url.UserPassword(user, pw)}).String() + post
		})
	}
	c.Each(suite, len(cases)*len(openModes), func(w, i int, name string) {
		uc, mode := cases[i/len(openModes)], openModes[i%len(openModes)]
		srv := openServer()
		srv.Start()
		defer srv.Close()
		openCase(c, suite, name, uc.desc, mode, uc.url(srv.Addr()), srv, uc.want, uc.auth, []string{"C19"})
		c.SampleN(suite, 3, func() interface{} {
			return map[string]interface{}{"suite": suite, "url": uc.url(srv.Addr()), "mode": mode, "must_open": uc.want}
		})
	})
}

func openHandshake(c *h.Ctx) {
	const suite = "open.handshake"
	c.Rule(suite, "server answers to the handshake (every single-byte change of version 1, other versions, no version, HTTP text, truncated) and to INIT (success with any metadata, failure, ignored, record, garbage, wrong types, truncated, closed, reset), whole, byte by byte and cut at every position, plain and over TLS, for four ways of opening; opening must succeed exactly when version 1 was answered and INIT accepted, no INIT may follow a refused version, and a failed attempt must close its connection. Distinct by answer and way of opening")
	type hc struct {
		desc   string
		plan   boltsrv.Plan
		want   bool
		noInit bool
		fail   ref.Map // the failure the server reports
	}
	var cases []hc
	add := func(desc string, want, noInit bool, f func(p *boltsrv.Plan)) {
		p := boltsrv.NoFault()
		f(&p)
		cases = append(cases, hc{desc: desc, plan: p, want: want, noInit: noInit})
	}
	add("version 1", true, false, func(p *boltsrv.Plan) {})
	add("version 1 byte by byte", true, false, func(p *boltsrv.Plan) { p.FragHS = true })
	vers := [][]byte{{0, 0, 0, 0}, {0, 0, 0, 2}, {1, 0, 0, 0}, []byte("HTTP"), {0xFF, 0xFF, 0xFF, 0xFF}, {0x16, 3, 1, 0}, {0, 1, 0, 4}, {0, 0, 1, 1}, {0, 0, 1, 0}}
	for pos := 0; pos < 4; pos++ {
		for _, b := range []byte{1, 2, 3, 0x7F, 0x80, 0xFF} {
			v := []byte{0, 0, 0, 1}
			if v[pos] == b {
				b = 0
			}
			v[pos] = b
			vers = append(vers, v)
		}
	}
	if c.Thorough {
		for b := 0; b < 256; b++ {
			if b != 1 {
				vers = append(vers, []byte{0, 0, 0, byte(b)})
			}
		}
	}
	for _, v := range vers {
		v := v
		add(fmt.Sprintf("version %x", v), false, true, func(p *boltsrv.Plan) { p.Version = v })
		add(fmt.Sprintf("version %x byte by byte", v), false, true, func(p *boltsrv.Plan) { p.Version = v; p.FragHS = true })
	}
	// how many bytes a clean opening exchanges
	totIn, totOut := int64(60), int64(20)
	if srv := openServer(); true {
		srv.Start()
		if cn, err := bolt.NewDriver().OpenNeo("bolt://u:p@" + srv.Addr()); err == nil {
			cn.Close()
			waitDone(srv.Sessions()[0])
			totIn, totOut = srv.Sessions()[0].Bytes()
		}
		srv.Close()
	}
	c.CountMax("open.answer_bytes", totOut)
	for _, do := range []boltsrv.Action{boltsrv.FIN, boltsrv.RST, boltsrv.Half} {
		do := do
		for at := int64(1); at < totOut; at++ {
			at := at
			add(fmt.Sprintf("%s after %d bytes of the answers", do, at), false, at < 4, func(p *boltsrv.Plan) { p.Out, p.Do = at, do })
		}
		add(fmt.Sprintf("%s on accept", do), false, true, func(p *boltsrv.Plan) { p.Refuse, p.Do = true, do })
		for at := int64(1); at < totIn-8; at += 7 {
			at := at
			add(fmt.Sprintf("%s after %d bytes from the client", do, at), false, at < 20, func(p *boltsrv.Plan) { p.In, p.Do = at, do })
		}
	}
	enc := ref.Encode
	succ := func(v interface{}) []byte {
		return enc(ref.Struct{Sig: ref.SigSuccess, Fields: []interface{}{v}})
	}
	initAns := func(desc string, b ...[]byte) {
		add("INIT answered "+desc, false, false, func(p *boltsrv.Plan) { p.Init = b })
	}
	for _, m := range []ref.Map{{"code": "Neo.ClientError.Security.Unauthorized", "message": "The client is unauthorized"}, {},
		{"code": "Neo.ClientError.Security.CredentialsExpired", "message": "é", "more": []interface{}{int64(1), nil}},
		{"code": "Neo.TransientError.General.DatabaseUnavailable", "message": ""}} {
		initAns(fmt.Sprintf("failure %v", m), enc(ref.Struct{Sig: ref.SigFailure, Fields: []interface{}{m}}))
		cases[len(cases)-1].fail = m
	}
	initAns("ignored", []byte{0xB0, ref.SigIgnored})
	initAns("record", enc(ref.Struct{Sig: ref.SigRecord, Fields: []interface{}{[]interface{}{int64(1)}}}))
	initAns("integer", enc(int64(1)))
	initAns("string", enc("SUCCESS"))
	initAns("map", enc(ref.Map{"server": "x"}))
	initAns("null", enc(nil))
	initAns("garbage", []byte{0xDF, 1, 2, 3})
	initAns("success with a string", succ("x"))
	initAns("success with too many fields", enc(ref.Struct{Sig: ref.SigSuccess, Fields: []interface{}{ref.Map{}, ref.Map{}}}))
	initAns("success without fields", []byte{0xB0, ref.SigSuccess})
	initAns("node", enc(ref.Struct{Sig: ref.SigNode, Fields: []interface{}{int64(1), []interface{}{}, ref.Map{}}}))
	initAns("INIT", enc(ref.Struct{Sig: ref.SigInit, Fields: []interface{}{"x", ref.Map{}}}))
	// what follows a failed INIT goes wrong too
	bad := enc(ref.Struct{Sig: ref.SigFailure, Fields: []interface{}{ref.Map{"code": "Neo.ClientError.Request.Invalid", "message": "second"}}})
	ign := []byte{0xB0, ref.SigIgnored}
	rec := enc(ref.Struct{Sig: ref.SigRecord, Fields: []interface{}{[]interface{}{int64(1)}}})
	ok := succ(ref.Map{})
	for _, a := range []struct {
		desc       string
		ack, reset [][]byte
	}{
		{"ignored and success", [][]byte{ign, ok}, nil},
		{"record", [][]byte{rec}, nil},
		{"garbage", [][]byte{{0xDF, 1, 2, 3}}, nil},
		{"integer", [][]byte{enc(int64(1))}, nil},
		{"failure, RESET with success", [][]byte{bad}, [][]byte{ok}},
		{"failure, RESET with ignored and success", [][]byte{bad}, [][]byte{ign, ok}},
		{"failure, RESET with failure", [][]byte{bad}, [][]byte{bad}},
		{"failure, RESET with record", [][]byte{bad}, [][]byte{rec}},
		{"failure, RESET with garbage", [][]byte{bad}, [][]byte{{0xDF}}},
	} {
		a := a
		add("INIT answered failure, acknowledging it "+a.desc, false, false, func(p *boltsrv.Plan) {
			p.Init = [][]byte{bad}
			p.Mangle = func(r *boltsrv.Request, bodies [][]byte) [][]byte {
				switch {
				case r.Kind == "ACK_FAILURE":
					return a.ack
				case r.Kind == "RESET" && a.reset != nil:
					return a.reset
				}
				return bodies
			}
		})
	}
	c.Count("open.answers", int64(len(cases)))
	c.EachW(suite, 2*len(cases)*len(openModes), 32, func(w, i int, name string) {
		hc, mode := cases[i/len(openModes)%len(cases)], openModes[i%len(openModes)]
		srv := openServer()
		srv.Plans = func(n int) boltsrv.Plan { return hc.plan }
		desc, suffix := hc.desc, ""
		if i >= len(cases)*len(openModes) { // once more over TLS
			e := tlsSetup()
			srv.TLS, suffix = e.srvCfg, e.suffix()
			desc += ", over TLS"
		}
		srv.Start()
		defer srv.Close()
		res, ok := openCase(c, suite, name, desc, mode, "bolt://u:p@"+srv.Addr()+suffix, srv, hc.want, basicAuth("u", "p"), []string{"C19"})
		if !ok {
			return
		}
		if hc.fail != nil {
			m, isFail := failureMeta(res.err)
			if eq, why := ref.Equal(map[string]interface{}(hc.fail), m); !isFail || !eq {
				viol(c, suite, name, []string{"C10", "C19"}, fmt.Sprintf("%s (%s): the error is %v with the innermost %T, not the server's failure: %s", hc.desc, mode, res.err, innermost(res.err), why))
			}
		}
		if hc.noInit {
			for _, s := range srv.Sessions() {
				if len(s.Requests()) > 0 {
					viol(c, suite, name, []string{"C19"}, fmt.Sprintf("%s (%s): %s was sent although no version was agreed", hc.desc, mode, s.Requests()[0].Kind))
				}
			}
		}
		c.SampleN(suite, 2, func() interface{} {
			return map[string]interface{}{"suite": suite, "answer": hc.desc, "mode": mode, "must_open": hc.want}
		})
	})
	// random success metadata and fragmentation must be accepted
	n := c.Pick(300, 5000)
	c.Each(suite+".ok", n, func(w, i int, name string) {
		r := c.Rand(suite+".ok", i)
		g := &ref.Gen{R: r, Budget: 10}
		m, err := ref.Wire(g.Props(3))
		if err != nil {
			return
		}
		mm, _ := m.(map[string]interface{})
		if mm == nil {
			mm = map[string]interface{}{}
		}
		srv := openServer()
		srv.Frag = r.Intn(3)
		srv.Chunk = []int{0, 1, 7, 300}[r.Intn(4)]
		srv.Seed = int64(i)
		fragHS := r.Intn(4) == 0
		srv.Plans = func(n int) boltsrv.Plan {
			p := boltsrv.NoFault()
			p.FragHS = fragHS
			p.Mangle = func(r *boltsrv.Request, bodies [][]byte) [][]byte {
				if r.Kind == "INIT" {
					return [][]byte{succ(mm)}
				}
				return bodies
			}
			return p
		}
		srv.Start()
		defer srv.Close()
		openCase(c, suite, name, fmt.Sprintf("INIT success with %s", ref.Short(mm)), openModes[r.Intn(4)], srv.URL(), srv, true, noAuth, []string{"C19"})
	})
}

func openTimeout(c *h.Ctx) {
	const suite = "open.timeout"
	c.Rule(suite, "the timeout given in the URL: a server silent before the handshake answer, within it, before or within the INIT answer must make opening fail in about that time, and one that answers late but within it must not; four ways of opening. Distinct by position of the silence and way of opening")
	type tc struct {
		at    int64
		secs  int
		delay time.Duration
		mode  string
	}
	var cases []tc
	for _, mode := range openModes {
		for _, at := range []int64{0, 2, 4, 5, 20} {
			cases = append(cases, tc{at: at, secs: 1, mode: mode})
		}
		cases = append(cases, tc{secs: 30, delay: 1300 * time.Millisecond, mode: mode}, tc{secs: 0, delay: 1300 * time.Millisecond, mode: mode})
		for _, secs := range []int{257, 65537, 4294967297} { // one second when cut to fewer bits
			cases = append(cases, tc{secs: secs, delay: 1300 * time.Millisecond, mode: mode})
		}
	}
	c.EachW(suite, len(cases), len(cases), func(w, i int, name string) {
		tc := cases[i]
		srv := openServer()
		desc := ""
		u := fmt.Sprintf("%s?timeout=%d", srv.URL(), tc.secs)
		if tc.secs == 0 {
			u = srv.URL()
		}
		if tc.delay > 0 {
			desc = fmt.Sprintf("answers %s late, timeout %d s", tc.delay, tc.secs)
			var once sync.Once
			srv.OnAccept = func(s *boltsrv.Session) { once.Do(func() { time.Sleep(tc.delay) }) }
			srv.OnRequest = func(s *boltsrv.Session, r *boltsrv.Request) {
				if r.Kind == "RUN" {
					time.Sleep(tc.delay)
				}
			}
		} else {
			desc = fmt.Sprintf("silent after %d bytes, timeout %d s", tc.at, tc.secs)
			srv.Plans = func(n int) boltsrv.Plan { p := boltsrv.NoFault(); p.Out, p.Do = tc.at, boltsrv.Stall; return p }
		}
		srv.Start()
		defer srv.Close()
		t0, k0 := time.Now(), h.Ticks()
		openCase(c, suite, name, desc, tc.mode, u, srv, tc.delay > 0, noAuth, []string{"C19", "C11"})
		el := time.Since(t0)
		if tc.delay == 0 && el < 900*time.Millisecond {
			viol(c, suite, name, []string{"C19"}, fmt.Sprintf("%s (%s): gave up after %s", desc, tc.mode, el))
		}
		// database/sql tries up to three times
		if tc.delay == 0 && el > 8*time.Second && h.Ticks()-k0 > 1200 {
			viol(c, suite, name, []string{"C11", "C19"}, fmt.Sprintf("%s (%s): gave up only after %s", desc, tc.mode, el))
		}
	})
	// nobody accepts the network connection
	c.EachW(suite+".dial", 2*len(openModes), 2*len(openModes), func(w, i int, name string) {
		mode, tls := openModes[i/2], i%2 == 1
		d, ok := boltsrv.NewDeaf()
		defer d.Close()
		if !ok {
			c.Inconclusive(suite + ": could not set up an address that doesn't answer")
			return
		}
		u := "bolt://u:p@" + d.Addr + "?timeout=1"
		if tls {
			u += "&tls=true&tls_no_verify=true"
		}
		desc := fmt.Sprintf("nobody accepts, timeout 1 s, tls %v (%s)", tls, mode)
		var res opened
		t0, k0 := time.Now(), h.Ticks()
		o := h.Guard(1500, nil, d.Close, func() { res = openBy(mode, u) })
		el := time.Since(t0)
		if o.Bad() {
			viol(c, suite, name, []string{"C19", "C11"}, desc+": opening: "+o.String())
			return
		}
		if res.err == nil {
			viol(c, suite, name, []string{"C19"}, desc+": opening succeeded")
			res.close()
		}
		if el < 900*time.Millisecond {
			viol(c, suite, name, []string{"C19"}, fmt.Sprintf("%s: gave up after %s: %v", desc, el, res.err))
		}
		if el > 8*time.Second && h.Ticks()-k0 > 1200 {
			viol(c, suite, name, []string{"C19", "C11"}, fmt.Sprintf("%s: gave up only after %s", desc, el))
		}
		c.Eval(desc)
		c.Count("open.dial_stalls", 1)
	})
}
