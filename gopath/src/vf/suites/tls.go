package suites

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"database/sql"
	"encoding/pem"
	"fmt"
	"math/big"
	"net"
	"net/url"
	"os"
	"path/filepath"
	"sync"
	"time"

	bolt "github.com/johnnadratowski/golang-neo4j-bolt-driver"

	"vf/boltsrv"
	"vf/h"
)

func init() {
	register(Suite{Name: "tls.verify", Props: []string{"C20", "C26"}, Run: tlsVerify})
	register(Suite{Name: "tls.again", Props: []string{"C20", "C16", "C26"}, Run: tlsAgain})
	register(Suite{Name: "tls.cut", Props: []string{"C20", "C11", "C12", "C26"}, Run: tlsCut})
}

// ca is an authority made for this run.
type ca struct {
	cert *x509.Certificate
	key  *ecdsa.PrivateKey
	pem  []byte
	file string
}

// leaf is a certificate with its key.
type leaf struct {
	tls       tls.Certificate
	cert, key string
}

type tlsEnv struct {
	dir                       string
	trusted, other, sys       *ca
	inter                     *ca
	good, goodDNS, wrongHost  *leaf
	expired, future, byOther  *leaf
	bySys, self, clientOnly   *leaf
	byInter, noInter          *leaf
	client, clientOther       *leaf
	clientExpired             *leaf
	empty, garbage, keyAsCert string
	serial                    int64
	srvCfg                    *tls.Config
}

var (
	tlsOnce sync.Once
	tlsE    *tlsEnv
)

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func (e *tlsEnv) write(name string, b []byte) string {
	f := filepath.Join(e.dir, name)
	must(os.WriteFile(f, b, 0600))
	return f
}

func (e *tlsEnv) authority(name string, parent *ca) *ca {
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	must(err)
	e.serial++
	t := &x509.Certificate{SerialNumber: big.NewInt(e.serial), Subject: pkix.Name{CommonName: name}, NotBefore: time.Now().Add(-24 * time.Hour), NotAfter: time.Now().Add(24 * time.Hour), IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign}
	p, pk := t, key
	if parent != nil {
		p, pk = parent.cert, parent.key
	}
	der, err := x509.CreateCertificate(rand.Reader, t, p, &key.PublicKey, pk)
	must(err)
	c, err := x509.ParseCertificate(der)
	must(err)
	b := pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der})
	return &ca{cert: c, key: key, pem: b, file: e.write(name+".pem", b)}
}

func (e *tlsEnv) leaf(name string, by *ca, f func(t *x509.Certificate)) *leaf {
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	must(err)
	e.serial++
	t := &x509.Certificate{SerialNumber: big.NewInt(e.serial), Subject: pkix.Name{CommonName: name}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(time.Hour),
		KeyUsage: x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth, x509.ExtKeyUsageClientAuth},
		IPAddresses: []net.IP{net.IPv4(127, 0, 0, 1)}, DNSNames: []string{"localhost"}}
	if f != nil {
		f(t)
	}
	p, pk := t, key
	if by != nil {
		p, pk = by.cert, by.key
	}
	der, err := x509.CreateCertificate(rand.Reader, t, p, &key.PublicKey, pk)
	must(err)
	kb, err := x509.MarshalECPrivateKey(key)
	must(err)
	cp := pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der})
	kp := pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: kb})
	tc, err := tls.X509KeyPair(cp, kp)
	must(err)
	return &leaf{tls: tc, cert: e.write(name+".crt", cp), key: e.write(name+".key", kp)}
}

// tlsSetup makes the certificates of this run, once. The system authorities
// of this process are replaced by one of them.
func tlsSetup() *tlsEnv {
	tlsOnce.Do(func() {
		dir, err := os.MkdirTemp(".", "certs")
		must(err)
		dir, err = filepath.Abs(dir)
		must(err)
		e := &tlsEnv{dir: dir}
		e.trusted, e.other, e.sys = e.authority("trusted", nil), e.authority("other", nil), e.authority("sys", nil)
		e.inter = e.authority("inter", e.trusted)
		os.Setenv("SSL_CERT_FILE", e.sys.file)
		os.Setenv("SSL_CERT_DIR", filepath.Join(dir, "none"))
		e.good = e.leaf("good", e.trusted, nil)
		e.goodDNS = e.leaf("gooddns", e.trusted, func(t *x509.Certificate) { t.IPAddresses = nil })
		e.wrongHost = e.leaf("wronghost", e.trusted, func(t *x509.Certificate) {
			t.IPAddresses, t.DNSNames = []net.IP{net.IPv4(10, 1, 2, 3)}, []string{"db.example.com"}
		})
		e.expired = e.leaf("expired", e.trusted, func(t *x509.Certificate) {
			t.NotBefore, t.NotAfter = time.Now().Add(-20*time.Hour), time.Now().Add(-time.Minute)
		})
		e.future = e.leaf("future", e.trusted, func(t *x509.Certificate) { t.NotBefore = time.Now().Add(30 * time.Minute) })
		e.byOther = e.leaf("byother", e.other, nil)
		e.bySys = e.leaf("bysys", e.sys, nil)
		e.self = e.leaf("self", nil, func(t *x509.Certificate) {
			t.IsCA, t.BasicConstraintsValid = true, true
			t.KeyUsage |= x509.KeyUsageCertSign
		})
		e.clientOnly = e.leaf("clientonly", e.trusted, func(t *x509.Certificate) { t.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth} })
		e.byInter = e.leaf("byinter", e.inter, nil)
		e.noInter = &leaf{tls: e.byInter.tls, cert: e.byInter.cert, key: e.byInter.key}
		e.byInter = &leaf{tls: tls.Certificate{Certificate: [][]byte{e.noInter.tls.Certificate[0], e.inter.cert.Raw}, PrivateKey: e.noInter.tls.PrivateKey}, cert: e.noInter.cert, key: e.noInter.key}
		e.client = e.leaf("client", e.trusted, func(t *x509.Certificate) { t.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth} })
		e.clientOther = e.leaf("clientother", e.other, nil)
		e.empty, e.garbage = e.write("empty.pem", nil), e.write("garbage.pem", []byte("-----BEGIN CERTIFICATE-----\nnonsense\n-----END CERTIFICATE-----\n"))
		e.srvCfg = &tls.Config{Certificates: []tls.Certificate{e.good.tls}}
		tlsE = e
	})
	return tlsE
}

// suffix is the URL query that makes e.srvCfg's server acceptable.
func (e *tlsEnv) suffix() string {
	return "?tls=true&tls_ca_cert_file=" + url.QueryEscape(e.trusted.file)
}

// tlsRecords parses raw bytes as TLS records; it returns how many there were
// and what is wrong, if anything (a partial record at the end is not).
func tlsRecords(b []byte) (n int, appData int, why string) {
	for len(b) > 0 {
		if b[0] < 20 || b[0] > 23 {
			return n, appData, fmt.Sprintf("byte %#x where a TLS record should start (after %d records)", b[0], n)
		}
		if len(b) < 5 {
			return
		}
		if b[1] != 3 || b[2] > 4 {
			return n, appData, fmt.Sprintf("TLS record %d has version %d.%d", n, b[1], b[2])
		}
		if b[0] == 23 {
			appData++
		}
		l := int(b[3])<<8 | int(b[4])
		n++
		if len(b) < 5+l {
			return
		}
		b = b[5+l:]
	}
	return
}

var boltMagic = []byte{0x60, 0x60, 0xB0, 0x17, 0, 0, 0, 1}

func tlsVerify(c *h.Ctx) {
	const suite = "tls.verify"
	c.Rule(suite, "TLS settings of the URL times servers: valid certificates (direct, through an intermediate, system authority, self-signed and configured), untrusted, for another host, expired, not yet valid, for clients only, missing intermediate, no TLS at all; with and without tls_no_verify in several spellings; client certificates wanted, given, missing, untrusted; unusable certificate settings; plain sessions; each opened four ways. The raw bytes of every connection are parsed as TLS records and searched for the Bolt preamble, the password and the statement; no INIT may arrive when opening must fail. Distinct by settings, server and way of opening")
	e := tlsSetup()
	type tc struct {
		desc   string
		cfg    *tls.Config // nil: the server does not speak TLS
		host   string
		opts   url.Values
		want   bool
		noDial bool // must fail before anything is sent
		plain  bool // must be a plain session
		cert   bool // the server must have seen a client certificate
	}
	var cases []tc
	srv := func(l *leaf) *tls.Config { return &tls.Config{Certificates: []tls.Certificate{l.tls}} }
	v := func(kv ...string) url.Values {
		u := url.Values{}
		for i := 0; i < len(kv); i += 2 {
			u.Set(kv[i], kv[i+1])
		}
		return u
	}
	with := func(kv ...string) url.Values {
		return v(append([]string{"tls", "true", "tls_ca_cert_file", e.trusted.file}, kv...)...)
	}
	add := func(t tc) {
		if t.host == "" {
			t.host = "127.0.0.1"
		}
		cases = append(cases, t)
	}
	certs := []struct {
		name string
		l    *leaf
		host string
		want bool
	}{
		{"valid", e.good, "", true}, {"valid for the name", e.good, "localhost", true},
		{"name only, by name", e.goodDNS, "localhost", true}, {"name only, by address", e.goodDNS, "127.0.0.1", false},
		{"through an intermediate", e.byInter, "", true}, {"intermediate missing", e.noInter, "", false},
		{"for another host", e.wrongHost, "", false}, {"for another host, by name", e.wrongHost, "localhost", false},
		{"expired", e.expired, "", false}, {"not yet valid", e.future, "", false},
		{"of an unknown authority", e.byOther, "", false}, {"of a system authority not configured", e.bySys, "", false},
		{"self-signed", e.self, "", false}, {"for clients only", e.clientOnly, "", false},
	}
	for _, x := range certs {
		add(tc{desc: "certificate " + x.name, cfg: srv(x.l), host: x.host, opts: with(), want: x.want})
		for _, nv := range []string{"true", "1", "TRUE", "t", "True"} {
			add(tc{desc: "certificate " + x.name + ", tls_no_verify=" + nv, cfg: srv(x.l), host: x.host, opts: with("tls_no_verify", nv), want: true})
		}
		for _, nv := range []string{"false", "0", "", "no", "False"} {
			add(tc{desc: "certificate " + x.name + ", tls_no_verify=" + nv, cfg: srv(x.l), host: x.host, opts: with("tls_no_verify", nv), want: x.want})
		}
		add(tc{desc: "certificate " + x.name + ", no authority configured", cfg: srv(x.l), host: x.host, opts: v("tls", "true"), want: x.l == e.bySys})
		add(tc{desc: "certificate " + x.name + ", timeout and credentials", cfg: srv(x.l), host: x.host, opts: with("timeout", "20"), want: x.want})
		add(tc{desc: "certificate " + x.name + ", client certificate given", cfg: srv(x.l), host: x.host, opts: with("tls_cert_file", e.client.cert, "tls_key_file", e.client.key), want: x.want})
		add(tc{desc: "certificate " + x.name + ", verified with itself as the authority of another", cfg: srv(x.l), host: x.host, opts: v("tls", "1", "tls_ca_cert_file", e.other.file), want: x.l == e.byOther})
	}
	for _, on := range []string{"true", "TRUE", "True", "1", "t"} {
		add(tc{desc: "tls=" + on, cfg: srv(e.good), opts: v("tls", on, "tls_ca_cert_file", e.trusted.file), want: true})
		add(tc{desc: "tls=" + on + ", untrusted", cfg: srv(e.byOther), opts: v("tls", on, "tls_ca_cert_file", e.trusted.file)})
		add(tc{desc: "tls=" + on + ", server without TLS", opts: v("tls", on, "tls_ca_cert_file", e.trusted.file)})
		add(tc{desc: "tls=" + on + ", server without TLS, not verifying", opts: v("tls", on, "tls_no_verify", "true")})
	}
	for _, off := range []string{"false", "0", "", "no", "off"} {
		add(tc{desc: "tls=" + off, opts: v("tls", off), want: true, plain: true})
		add(tc{desc: "tls=" + off + ", no_verify", opts: v("tls", off, "tls_no_verify", "true"), want: true, plain: true})
	}
	add(tc{desc: "no TLS", opts: v(), want: true, plain: true})
	add(tc{desc: "no TLS, timeout", opts: v("timeout", "20"), want: true, plain: true})
	add(tc{desc: "self-signed and configured", cfg: srv(e.self), opts: v("tls", "true", "tls_ca_cert_file", e.self.cert), want: true})
	both := e.write("both.pem", append(append([]byte(nil), e.other.pem...), e.trusted.pem...))
	add(tc{desc: "two authorities, second", cfg: srv(e.good), opts: v("tls", "true", "tls_ca_cert_file", both), want: true})
	add(tc{desc: "two authorities, first", cfg: srv(e.byOther), opts: v("tls", "true", "tls_ca_cert_file", both), want: true})
	add(tc{desc: "two authorities, neither", cfg: srv(e.bySys), opts: v("tls", "true", "tls_ca_cert_file", both)})
	pool := x509.NewCertPool()
	pool.AddCert(e.trusted.cert)
	mutual := func(a tls.ClientAuthType) *tls.Config {
		return &tls.Config{Certificates: []tls.Certificate{e.good.tls}, ClientAuth: a, ClientCAs: pool}
	}
	cl := func(l *leaf, kv ...string) url.Values {
		return with(append([]string{"tls_cert_file", l.cert, "tls_key_file", l.key}, kv...)...)
	}
	add(tc{desc: "client certificate wanted and given", cfg: mutual(tls.RequireAndVerifyClientCert), opts: cl(e.client), want: true, cert: true})
	add(tc{desc: "client certificate wanted and given, not verifying", cfg: mutual(tls.RequireAndVerifyClientCert), opts: cl(e.client, "tls_no_verify", "true"), want: true, cert: true})
	add(tc{desc: "client certificate wanted and given, no authority, not verifying", cfg: mutual(tls.RequireAndVerifyClientCert), opts: v("tls", "true", "tls_no_verify", "1", "tls_cert_file", e.client.cert, "tls_key_file", e.client.key), want: true, cert: true})
	add(tc{desc: "client certificate wanted, not given", cfg: mutual(tls.RequireAndVerifyClientCert), opts: with()})
	add(tc{desc: "client certificate wanted, untrusted given", cfg: mutual(tls.RequireAndVerifyClientCert), opts: cl(e.clientOther)})
	add(tc{desc: "client certificate asked for, given", cfg: mutual(tls.VerifyClientCertIfGiven), opts: cl(e.client), want: true, cert: true})
	add(tc{desc: "client certificate asked for, not given", cfg: mutual(tls.VerifyClientCertIfGiven), opts: with(), want: true})
	add(tc{desc: "client certificate given, wrong server", cfg: mutual(tls.RequireAndVerifyClientCert), opts: v("tls", "true", "tls_cert_file", e.client.cert, "tls_key_file", e.client.key)})
	missing := filepath.Join(e.dir, "missing")
	for _, ca := range []struct{ d, f string }{{"missing", missing}, {"empty", e.empty}, {"garbage", e.garbage}, {"a key", e.client.key}, {"a directory", e.dir}} {
		for _, nv := range []string{"", "true"} {
			add(tc{desc: "authority file " + ca.d + " no_verify=" + nv, cfg: srv(e.good), opts: v("tls", "true", "tls_ca_cert_file", ca.f, "tls_no_verify", nv), noDial: true})
			add(tc{desc: "authority file " + ca.d + " system server no_verify=" + nv, cfg: srv(e.bySys), opts: v("tls", "true", "tls_ca_cert_file", ca.f, "tls_no_verify", nv), noDial: true})
		}
	}
	for _, ck := range []struct{ d, c, k string }{{"without key", e.client.cert, ""}, {"missing", missing, e.client.key}, {"with missing key", e.client.cert, missing}, {"with another's key", e.client.cert, e.clientOther.key}, {"empty", e.empty, e.client.key}, {"garbage", e.garbage, e.client.key}, {"swapped with its key", e.client.key, e.client.cert}, {"with a certificate as key", e.client.cert, e.client.cert}} {
		for _, nv := range []string{"", "true"} {
			add(tc{desc: "client certificate " + ck.d + " no_verify=" + nv, cfg: srv(e.good), opts: with("tls_cert_file", ck.c, "tls_key_file", ck.k, "tls_no_verify", nv), noDial: true})
		}
	}
	c.Count("tls.settings", int64(len(cases)))
	const secret = "S3CRETPASSWORD9x"
	c.Each(suite, len(cases)*len(openModes), func(w, i int, name string) {
		tc, mode := cases[i/len(openModes)], openModes[i%len(openModes)]
		s := openServer()
		var mu sync.Mutex
		certsSeen := 0
		if tc.cfg != nil {
			cfg := tc.cfg.Clone()
			cfg.VerifyConnection = func(st tls.ConnectionState) error {
				mu.Lock()
				certsSeen += len(st.PeerCertificates)
				mu.Unlock()
				return nil
			}
			s.TLS = cfg
		}
		if tc.cfg == nil && !tc.plain {
			// what plain servers do with a TLS hello
			answer := [][]byte{{0, 0, 0, 1}, {0, 0, 0, 0}, []byte("HTTP/1.1 400 Bad Request\r\n\r\n")}[i%3]
			s.Plans = func(n int) boltsrv.Plan {
				p := boltsrv.NoFault()
				p.Version, p.Out, p.Do = answer, int64(len(answer)), boltsrv.FIN
				return p
			}
		}
		s.Start()
		defer s.Close()
		_, port, _ := net.SplitHostPort(s.Addr())
		u := "bolt://alice:" + secret + "@" + tc.host + ":" + port
		if q := tc.opts.Encode(); q != "" {
			u += "?" + q
		}
		bad := func(f string, a ...interface{}) {
			viol(c, suite, name, []string{"C20"}, fmt.Sprintf("%s (%s): ", tc.desc, mode)+fmt.Sprintf(f, a...))
		}
		if _, ok := openCase(c, suite, name, tc.desc, mode, u, s, tc.want, basicAuth("alice", secret), []string{"C20"}); !ok {
			return
		}
		ss := s.Sessions()
		if tc.want && len(ss) == 0 {
			bad("no connection arrived")
		}
		for _, x := range ss {
			raw := x.RawIn()
			if tc.plain {
				if !bytes.HasPrefix(raw, boltMagic) {
					bad("the plain session does not start with the Bolt preamble: %x", raw[:min(8, len(raw))])
				}
				continue
			}
			n, app, why := tlsRecords(raw)
			if why != "" {
				bad("not encrypted: %s", why)
			}
			for _, t := range [][]byte{boltMagic, []byte(secret), []byte("use " + suite), []byte("alice")} {
				if bytes.Contains(raw, t) {
					bad("%q was sent in clear", t)
				}
			}
			c.Count("tls.records", int64(n))
			if !tc.want {
				if app > 0 || (tc.cfg != nil && (x.Handshake != nil || len(x.Requests()) > 0)) {
					bad("session data was sent although the server must not be trusted")
				}
				if tc.noDial && n > 0 {
					bad("the server was contacted with unusable certificate settings")
				}
			} else if app == 0 {
				bad("no encrypted session data seen")
			}
		}
		mu.Lock()
		if tc.cert && certsSeen == 0 {
			bad("the configured client certificate was not presented")
		}
		mu.Unlock()
		c.SampleN(suite, 4, func() interface{} {
			return map[string]interface{}{"suite": suite, "case": tc.desc, "mode": mode, "must_open": tc.want}
		})
	})
}

// tlsAgain has connections replaced after they broke: the new ones must be as
// secure as the first.
func tlsAgain(c *h.Ctx) {
	const suite = "tls.again"
	c.Rule(suite, "pools and database/sql handles over TLS whose connections the server breaks, 2-8 times, while it goes over to another certificate, to plain Bolt or back: every connection must be encrypted, a server that became untrustworthy must be refused and one that is trustworthy (again) be used. Distinct by the sequence of servers and way of opening")
	e := tlsSetup()
	n := c.Pick(300, 5000)
	c.Each(suite, n, func(w, i int, name string) {
		r := c.Rand(suite, i)
		type kind struct {
			what string
			l    *leaf // nil: plain Bolt
			ok   bool
		}
		kinds := []kind{{"trusted", e.good, true}, {"trusted", e.good, true}, {"trusted through an intermediate", e.byInter, true}, {"untrusted", e.byOther, false}, {"expired", e.expired, false}, {"for another host", e.wrongHost, false}, {"self-signed", e.self, false}, {"plain", nil, false}}
		const secret = "S3CRETPASSWORD8y"
		mode := []string{"pool", "pool", "sql"}[r.Intn(3)]
		noVerify := r.Intn(5) == 0
		opts := e.suffix() + "&timeout=20"
		if noVerify {
			opts += "&tls_no_verify=true"
		}
		var mu sync.Mutex
		now := kinds[r.Intn(3)]
		usable := func() bool { return now.ok || noVerify && now.l != nil }
		srv := openServer()
		certs := &tls.Config{GetCertificate: func(*tls.ClientHelloInfo) (*tls.Certificate, error) {
			mu.Lock()
			defer mu.Unlock()
			return &now.l.tls, nil
		}}
		srv.TLSFor = func() *tls.Config {
			mu.Lock()
			defer mu.Unlock()
			if now.l == nil {
				return nil
			}
			return certs
		}
		srv.Plans = func(n int) boltsrv.Plan {
			p := boltsrv.NoFault()
			mu.Lock()
			if now.l == nil {
				p.Out, p.Do = 4, boltsrv.FIN
			}
			mu.Unlock()
			return p
		}
		srv.Start()
		defer srv.Close()
		u := "bolt://alice:" + secret + "@" + srv.Addr() + opts
		var seq []string
		bad := func(f string, a ...interface{}) {
			viol(c, suite, name, []string{"C20"}, fmt.Sprintf("%s, not verifying %v, servers %q: ", mode, noVerify, seq)+fmt.Sprintf(f, a...))
		}
		var use func(q string) error
		o := h.Guard(hangTicks, srv.Activity, nil, func() {
			if mode == "sql" {
				db, err := sql.Open("neo4j-bolt", u)
				if err != nil {
					bad("open: %v", err)
					return
				}
				defer db.Close()
				db.SetMaxOpenConns(1)
				use = func(q string) error {
					var s string
					if err := db.QueryRow(q).Scan(&s); err != nil {
						return err
					}
					if s != q {
						return fmt.Errorf("got %q", s)
					}
					return nil
				}
			} else {
				p, err := bolt.NewClosableDriverPool(u, 1)
				if err != nil {
					bad("pool: %v", err)
					return
				}
				defer p.Close()
				use = func(q string) error {
					cn, err := p.OpenPool()
					if err != nil {
						return err
					}
					defer cn.Close()
					d, _, _, err := cn.QueryNeoAll(q, nil)
					if err == nil && (len(d) != 1 || d[0][0] != q) {
						err = fmt.Errorf("got %v", d)
					}
					return err
				}
			}
			for k := 2 + r.Intn(7); k > 0; k-- {
				mu.Lock()
				seq = append(seq, now.what)
				want := usable()
				mu.Unlock()
				err := use(fmt.Sprintf("use %d", k))
				for t := 0; t < 3 && want && err != nil; t++ { // the break may not have been noticed yet
					time.Sleep(20 * time.Millisecond)
					err = use(fmt.Sprintf("use %d", k))
				}
				if (err == nil) != want {
					bad("the statement gave %v", err)
					return
				}
				if r.Intn(4) == 0 { // the same connection again
					if err := use("again"); (err == nil) != want {
						bad("the second statement gave %v", err)
						return
					}
				}
				mu.Lock()
				now = kinds[r.Intn(len(kinds))]
				mu.Unlock()
				for _, s := range srv.Sessions() {
					s.Kill([]boltsrv.Action{boltsrv.FIN, boltsrv.RST}[r.Intn(2)])
				}
				if !settledLive(srv, 0) && r.Intn(2) == 0 {
					c.Inconclusive("%s: the server's end did not close", suite)
				}
				c.Count("tls.replacements", 1)
			}
		})
		if o.Bad() {
			bad("%s", o.String())
		}
		for _, x := range srv.Sessions() {
			raw := x.RawIn()
			_, _, why := tlsRecords(raw)
			if why != "" {
				bad("not encrypted: %s", why)
			}
			for _, t := range [][]byte{boltMagic, []byte(secret), []byte("use "), []byte("alice")} {
				if bytes.Contains(raw, t) {
					bad("%q was sent in clear", t)
				}
			}
		}
		c.Eval(fmt.Sprint(mode, noVerify, seq))
		c.SampleN(suite, 3, func() interface{} {
			return map[string]interface{}{"suite": suite, "mode": mode, "servers": seq}
		})
	})
}

// tlsCut repeats the transport faults of fault.cut under TLS.
func tlsCut(c *h.Ctx) {
	const suite = "tls.cut"
	c.Rule(suite, "the programs of fault.cut over TLS give the same results as in clear, and end the same way when the connection is closed, reset or silenced at sampled bytes of the encrypted session, and when the server is silent during the TLS handshake; distinct by (program, direction, action, offset)")
	e := tlsSetup()
	var cases []cutCase
	for _, p := range progs() {
		b0, problem := p.clean(c, suite, nil, "")
		var b *baseline
		if problem == "" {
			b, problem = p.clean(c, suite, e.srvCfg, e.suffix())
		}
		if problem == "" {
			if why := sameOutcomes(b0.out, b.out); why != "" {
				problem = fmt.Sprintf("program %s over TLS differs from the plain session: %s", p.name, why)
			} else if fmt.Sprint(b0.commits) != fmt.Sprint(b.commits) {
				problem = fmt.Sprintf("program %s over TLS committed %v instead of %v", p.name, b.commits, b0.commits)
			}
		}
		if problem != "" {
			viol(c, suite, suite+"#clean", []string{"C20", "C11"}, problem)
			return
		}
		c.Eval("clean " + p.name)
		for _, in := range []bool{false, true} {
			total := b.bo
			if in {
				total = b.in
			}
			for _, do := range []boltsrv.Action{boltsrv.FIN, boltsrv.RST, boltsrv.Half, boltsrv.Stall, boltsrv.Late} {
				start := int64(1)
				if do == boltsrv.Stall || do == boltsrv.Late {
					start = 120
				}
				step := (total - start) / int64(c.Pick(12, 120))
				if step < 1 {
					step = 1
				}
				for at := start; at < total; at += step {
					cases = append(cases, cutCase{p: p, b: b, do: do, in: in, at: at, tls: true})
				}
			}
		}
	}
	c.Count("tls.cut_points", int64(len(cases)))
	c.EachW(suite, len(cases), 48, func(w, i int, name string) { cutOne(c, suite, name, cases[i]) })
	// silence before or within the TLS handshake; a plain server that
	// never answers stands for both
	c.EachW(suite+".hs", len(openModes), len(openModes), func(w, i int, name string) {
		mode := openModes[i]
		srv := openServer()
		srv.Plans = func(n int) boltsrv.Plan { p := boltsrv.NoFault(); p.Out, p.Do = 0, boltsrv.Stall; return p }
		srv.Start()
		defer srv.Close()
		t0, k0 := time.Now(), h.Ticks()
		openCase(c, suite, name, "server silent during the TLS handshake, timeout 1 s", mode, srv.URL()+e.suffix()+"&timeout=1", srv, false, nil, []string{"C20", "C11", "C19"})
		if el := time.Since(t0); el > 8*time.Second && h.Ticks()-k0 > 1200 {
			viol(c, suite, name, []string{"C11", "C20", "C19"}, fmt.Sprintf("TLS handshake with a silent server (%s): gave up only after %s", mode, el))
		}
	})
}

func sameOutcomes(a, b []outcome) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%d calls instead of %d", len(b), len(a))
	}
	for i := range a {
		if s, t := fmt.Sprintf("%s %v %v", a[i].what, a[i].val, cause(a[i].err)), fmt.Sprintf("%s %v %v", b[i].what, b[i].val, cause(b[i].err)); s != t {
			return fmt.Sprintf("%s instead of %s", trunc(t, 200), trunc(s, 200))
		}
	}
	return ""
}

func cause(err error) string {
	if err == nil {
		return "ok"
	}
	e := innermost(err)
	return fmt.Sprintf("%T %v", e, e)
}
