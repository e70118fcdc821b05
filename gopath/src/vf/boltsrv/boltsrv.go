// Package boltsrv is an in-process Bolt v1 server that doubles as a monitor: it
// checks every message it receives against the session state machine, keeps a
// record of every request and of exactly what it answered, models
// transactions, and injects faults. It shares no code with the driver.
package boltsrv

import (
	"bytes"
	"context"
	"crypto/tls"
	"fmt"
	"io"
	"math/rand"
	"net"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"vf/ref"
)

// Script says how the server answers one statement.
type Script struct {
	RunMeta    ref.Map
	Rows       [][]interface{} // wire values
	PullMeta   ref.Map
	FailRun    ref.Map // RUN is answered with FAILURE carrying this metadata
	FailPull   ref.Map // PULL_ALL/DISCARD_ALL ends in FAILURE ...
	FailPullAt int     // ... after this many rows (PULL_ALL only)
	Effect     string  // takes effect when the statement completes
	// Gate, if set, is called before row i is sent (i==len(Rows) for the
	// summary, -1 for the response to RUN).
	Gate func(i int)
}

// Request is one message received and the responses sent for it.
type Request struct {
	Seq       int
	Kind      string
	Query     string
	Params    interface{} // wire value
	Fields    []interface{}
	Responses []ref.Struct
	InTx      bool
	State     string // session state on receipt
	Sizes     []int
}

// Action is what a fault does to the connection.
type Action int

// Fault actions.
const (
	None  Action = iota
	FIN          // close in an orderly way
	RST          // reset
	Stall        // stop responding, keep the connection
	Late         // stop responding until Release, then continue
	Stop         // stop reading and responding
	Half         // send no more, but keep the connection until the client closes its side
)

func (a Action) String() string {
	return [...]string{"none", "fin", "rst", "stall", "late", "stop", "half"}[a]
}

// Plan is the fault plan of one connection. Offsets count from the start of
// the connection; -1 disables.
type Plan struct {
	Out     int64 // act when this many bytes have been sent
	In      int64 // act when this many bytes have been received
	Do      Action
	Version []byte // handshake reply; nil means version 1
	// NoHandshake closes right after accepting.
	Refuse bool
	// Init replaces the response to INIT (whole messages, framed by the server).
	Init [][]byte
	// RawInit replaces the response to INIT by raw bytes.
	RawInit []byte
	// Mangle may replace the encoded response bodies to a request.
	Mangle func(r *Request, bodies [][]byte) [][]byte
	// FragHS fragments the handshake reply and INIT response byte by byte with pauses.
	FragHS bool
}

// NoFault is the plan without faults.
func NoFault() Plan { return Plan{Out: -1, In: -1} }

// Server is the listening monitor.
type Server struct {
	Handler func(s *Session, query string, params interface{}) *Script
	// TxFail may make BEGIN/COMMIT/ROLLBACK fail with the returned metadata.
	TxFail func(s *Session, op string) ref.Map
	// TxFailPull makes such a failure come with the PULL_ALL, after a successful RUN.
	TxFailPull func(s *Session, op string) bool
	// AckFail makes ACK_FAILURE fail (the client should RESET).
	AckFail func(s *Session) ref.Map
	// Plans gives the fault plan of connection n (0-based).
	Plans func(n int) Plan
	// Marker is counted in what is received (not over TLS).
	Marker []byte
	// Frag: 0 whole writes, 1 random fragments, 2 byte by byte.
	Frag int
	// Chunk: 0 one chunk per message, otherwise random chunks up to Chunk.
	Chunk int
	// Drip: at most DripSize bytes are sent at a time, Drip apart.
	Drip     time.Duration
	DripSize int
	// Wide: random (longer than needed) header widths in responses.
	Wide bool
	Seed int64
	// Forget: requests and responses are not kept.
	Forget bool
	// MaxChunk is what the client's chunk size is configured to (0: unknown).
	TLS *tls.Config
	// TLSFor decides for each connection, instead.
	TLSFor func() *tls.Config
	// OnRequest is called (under the session's processor) for every request.
	OnRequest func(s *Session, r *Request)
	// Accepting can hold back the session start.
	OnAccept func(s *Session)

	ln       net.Listener
	hold     int // keeps the port while not listening
	mu       sync.Mutex
	sessions []*Session
	act      int64
	live     int64
	peak     int64
	commits  []string
	bad      []Bad
	closed   bool
	wg       sync.WaitGroup
}

// Bad is a protocol breach seen by the monitor.
type Bad struct {
	Kind string // illegal, framing, packstream, handshake
	What string
}

// Session is one accepted connection.
type Session struct {
	ID   int
	srv  *Server
	raw  net.Conn
	conn net.Conn
	r    *rand.Rand // of the reading goroutine
	wr   *rand.Rand // of the writing goroutine
	plan Plan

	mu        sync.Mutex
	cond      *sync.Cond
	Reqs      []*Request
	Handshake []byte
	InitOK    bool
	state     string
	tx        string // "", open, failed
	pending   []string
	cur       *Script
	txs       int // transaction statements answered
	outq      []byte
	outClosed bool
	in        int64
	out       int64
	faulted   bool
	inAtFault int64
	eof       bool
	ended     bool
	readErr   string
	released  bool
	rawHead   []byte
	done      chan struct{}
	User      interface{}
	inMsgs    int64
	inRuns    int64
	stopped   chan struct{}
	marks     int
	markTail  []byte
	stopOnce  sync.Once
	inits     int
}

// New starts a server on a loopback port.
func New() *Server {
	s := &Server{Plans: func(int) Plan { return NoFault() }}
	ln, err := listenConfig.Listen(context.Background(), "tcp", "127.0.0.1:0")
	for k := 0; err != nil; k++ {
		// the ports given out may all be waiting for their last connections to be forgotten
		if k == 4000 {
			panic(err)
		}
		if k%4 == 3 {
			ln, err = listenConfig.Listen(context.Background(), "tcp", "127.0.0.1:0")
			continue
		}
		// make sure nobody listens there, as with SO_REUSEPORT it could be shared
		var probe net.Listener
		if probe, err = net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", 10000+rand.Intn(22000))); err != nil {
			time.Sleep(5 * time.Millisecond)
			continue
		}
		probe.Close()
		ln, err = listenConfig.Listen(context.Background(), "tcp", probe.Addr().String())
	}
	s.ln = ln
	return s
}

// Start begins accepting.
func (s *Server) Start() *Server {
	s.wg.Add(1)
	go s.accept(s.ln)
	return s
}

// Addr is host:port.
func (s *Server) Addr() string { return s.ln.Addr().String() }

// URL is a bolt URL for the server.
func (s *Server) URL() string { return "bolt://" + s.Addr() }

// StopListening refuses further connections (they get connection refused).
// The port stays reserved, so that nobody else can come to listen on it.
func (s *Server) StopListening() {
	if s.hold == 0 {
		a := s.ln.Addr().(*net.TCPAddr)
		fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
		if err == nil {
			sa := &syscall.SockaddrInet4{Port: a.Port}
			copy(sa.Addr[:], a.IP.To4())
			syscall.SetsockoptInt(fd, syscall.SOL_SOCKET, soReusePort, 1)
			if err = syscall.Bind(fd, sa); err != nil {
				syscall.Close(fd)
			} else {
				s.hold = fd
			}
		}
		if err != nil {
			panic("boltsrv: cannot keep the port: " + err.Error())
		}
	}
	s.ln.Close()
}

const soReusePort = 15

var listenConfig = net.ListenConfig{Control: func(network, address string, c syscall.RawConn) error {
	var err error
	c.Control(func(fd uintptr) {
		err = syscall.SetsockoptInt(int(fd), syscall.SOL_SOCKET, soReusePort, 1)
	})
	return err
}}

// Relisten listens again on the same port.
func (s *Server) Relisten() error {
	var err error
	for i := 0; i < 50; i++ {
		var ln net.Listener
		ln, err = listenConfig.Listen(context.Background(), "tcp", s.ln.Addr().String())
		if err == nil {
			s.ln = ln
			s.wg.Add(1)
			go s.accept(ln)
			return nil
		}
		time.Sleep(5 * time.Millisecond)
	}
	return err
}

// Close stops everything.
func (s *Server) Close() {
	s.ln.Close()
	s.mu.Lock()
	s.closed = true
	ss := append([]*Session(nil), s.sessions...)
	s.mu.Unlock()
	for _, x := range ss {
		x.Kill(FIN)
	}
	s.wg.Wait()
	if s.hold != 0 {
		syscall.Close(s.hold)
		s.hold = 0
	}
}

// Activity changes whenever the server does something.
func (s *Server) Activity() int64 { return atomic.LoadInt64(&s.act) }

func (s *Server) tick() { atomic.AddInt64(&s.act, 1) }

// Live is the number of connections open now; Peak the most at any time.
func (s *Server) Live() int64 { return atomic.LoadInt64(&s.live) }

// Peak number of simultaneously open connections.
func (s *Server) Peak() int64 { return atomic.LoadInt64(&s.peak) }

// Sessions lists all connections so far.
func (s *Server) Sessions() []*Session {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]*Session(nil), s.sessions...)
}

// Commits lists the effects that happened, in order.
func (s *Server) Commits() []string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]string(nil), s.commits...)
}

// Breaches lists protocol breaches.
func (s *Server) Breaches() []Bad {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]Bad(nil), s.bad...)
}

func (s *Server) breach(kind, f string, a ...interface{}) {
	s.mu.Lock()
	if len(s.bad) < 20 {
		s.bad = append(s.bad, Bad{kind, fmt.Sprintf(f, a...)})
	}
	s.mu.Unlock()
}

// Find returns the RUN request with that query text over all sessions, with
// the request that followed it on the same session (PULL_ALL/DISCARD_ALL), if
// any, and how many RUNs had that text.
func (s *Server) Find(query string) (run, pull *Request, sess *Session, n int) {
	for _, x := range s.Sessions() {
		x.mu.Lock()
		for i, r := range x.Reqs {
			if r.Kind == "RUN" && r.Query == query {
				n++
				run, sess, pull = r, x, nil
				if i+1 < len(x.Reqs) && (x.Reqs[i+1].Kind == "PULL_ALL" || x.Reqs[i+1].Kind == "DISCARD_ALL") {
					pull = x.Reqs[i+1]
				}
			}
		}
		x.mu.Unlock()
	}
	return
}

func (s *Server) accept(ln net.Listener) {
	defer s.wg.Done()
	for {
		c, err := ln.Accept()
		if err != nil {
			return
		}
		s.tick()
		s.mu.Lock()
		if s.closed {
			s.mu.Unlock()
			c.Close()
			return
		}
		n := len(s.sessions)
		x := &Session{ID: n, srv: s, raw: c, conn: c, r: rand.New(rand.NewSource(s.Seed*1000003 + int64(n))), wr: rand.New(rand.NewSource(s.Seed*7919 + int64(n))), state: "HANDSHAKE", done: make(chan struct{}), stopped: make(chan struct{})}
		x.cond = sync.NewCond(&x.mu)
		x.plan = s.Plans(n)
		s.sessions = append(s.sessions, x)
		s.mu.Unlock()
		l := atomic.AddInt64(&s.live, 1)
		for {
			p := atomic.LoadInt64(&s.peak)
			if l <= p || atomic.CompareAndSwapInt64(&s.peak, p, l) {
				break
			}
		}
		s.wg.Add(1)
		go x.run()
	}
}

type sniff struct {
	net.Conn
	x *Session
}

func (n sniff) Read(p []byte) (int, error) {
	k, err := n.Conn.Read(p)
	n.x.mu.Lock()
	if len(n.x.rawHead) < 1<<16 {
		n.x.rawHead = append(n.x.rawHead, p[:k]...)
	}
	n.x.mu.Unlock()
	return k, err
}

// RawIn returns the first raw bytes received (before any TLS).
func (x *Session) RawIn() []byte {
	x.mu.Lock()
	defer x.mu.Unlock()
	return append([]byte(nil), x.rawHead...)
}

func (x *Session) run() {
	s := x.srv
	defer s.wg.Done()
	defer func() {
		x.mu.Lock()
		over := x.readErr == io.EOF.Error()
		x.mu.Unlock()
		if t, ok := x.raw.(*net.TCPConn); ok && over {
			// The client has closed its side, so this reaches nobody; but its
			// port needn't wait for the end of the connection.
			t.SetLinger(0)
		}
		x.raw.Close()
		x.mu.Lock()
		x.ended = true
		x.outClosed = true
		x.mu.Unlock()
		x.cond.Broadcast()
		atomic.AddInt64(&s.live, -1)
		s.tick()
		close(x.done)
	}()
	if x.plan.Refuse {
		x.kill(x.plan.Do)
		return
	}
	if s.OnAccept != nil {
		s.OnAccept(x)
	}
	cfg := s.TLS
	if s.TLSFor != nil {
		cfg = s.TLSFor()
	}
	if cfg != nil {
		t := tls.Server(sniff{x.raw, x}, cfg)
		x.conn = t
		t.SetDeadline(time.Now().Add(20 * time.Second))
		if err := t.Handshake(); err != nil {
			x.mu.Lock()
			x.readErr = "tls: " + err.Error()
			x.eof = true
			x.mu.Unlock()
			return
		}
		t.SetDeadline(time.Time{})
	}
	var wg sync.WaitGroup
	wg.Add(1)
	go func() { defer wg.Done(); x.writer() }()
	msgs := make(chan ref.Msg, 4096)
	wg.Add(1)
	go func() { defer wg.Done(); x.process(msgs) }()
	if x.plan.Out == 0 {
		x.fault()
	}
	if x.plan.In == 0 {
		x.fault()
	}
	// reader
	buf := make([]byte, 65536)
	var hs []byte
	var u ref.Unframer
	for {
		lim := len(buf)
		x.mu.Lock()
		armed, left := x.plan.In > 0 && !x.faulted, x.plan.In-x.in
		x.mu.Unlock()
		if armed {
			if left < int64(lim) {
				lim = int(left)
			}
			if lim <= 0 {
				lim = len(buf)
			}
		}
		n, err := x.conn.Read(buf[:lim])
		s.tick()
		x.mu.Lock()
		x.in += int64(n)
		hitIn := x.plan.In > 0 && x.in >= x.plan.In && !x.faulted
		if cfg == nil && len(x.rawHead) < 1<<16 {
			x.rawHead = append(x.rawHead, buf[:n]...)
		}
		if len(s.Marker) > 0 {
			win := append(x.markTail, buf[:n]...)
			x.marks += bytes.Count(win, s.Marker)
			if k := len(s.Marker) - 1; len(win) > k {
				win = win[len(win)-k:]
			}
			x.markTail = append([]byte(nil), win...)
		}
		x.mu.Unlock()
		p := buf[:n]
		if len(hs) < 20 && n > 0 {
			k := 20 - len(hs)
			if k > len(p) {
				k = len(p)
			}
			hs = append(hs, p[:k]...)
			p = p[k:]
			if len(hs) == 20 {
				x.mu.Lock()
				x.Handshake = append([]byte(nil), hs...)
				x.state = "CONNECTED"
				x.mu.Unlock()
				x.checkHandshake(hs)
				v := x.plan.Version
				if v == nil {
					v = []byte{0, 0, 0, 1}
				}
				x.send(v)
			}
		}
		if hitIn {
			x.fault()
			if x.plan.Do == FIN || x.plan.Do == RST {
				x.endReader(msgs, err)
				wg.Wait()
				return
			}
			if x.plan.Do == Stop {
				<-x.stopped
			}
		}
		x.mu.Lock()
		half := x.faulted && x.plan.Do == Half
		x.mu.Unlock()
		if half {
			p = nil
		}
		for _, m := range u.Feed(p) {
			atomic.AddInt64(&x.inMsgs, 1)
			if len(m.Body) > 1 && m.Body[1] == ref.SigRun {
				atomic.AddInt64(&x.inRuns, 1)
			}
			msgs <- m
		}
		if err != nil {
			x.mu.Lock()
			x.eof = true
			x.readErr = err.Error()
			x.mu.Unlock()
			break
		}
	}
	if u.Pending() && !x.Faulted() {
		x.srv.note(x, "partial message at end of stream")
	}
	x.endReader(msgs, nil)
	wg.Wait()
}

func (s *Server) note(x *Session, w string) {}

func (x *Session) endReader(msgs chan ref.Msg, err error) {
	close(msgs)
	x.mu.Lock()
	x.eof = true
	x.outClosed = true
	x.mu.Unlock()
	x.cond.Broadcast()
}

func (x *Session) checkHandshake(hs []byte) {
	want := []byte{0x60, 0x60, 0xB0, 0x17, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}
	for i := range want {
		if hs[i] != want[i] {
			x.srv.breach("handshake", "handshake was %s", ref.Hex(hs))
			return
		}
	}
}

// fault performs the plan's action.
func (x *Session) fault() {
	x.mu.Lock()
	if x.faulted {
		x.mu.Unlock()
		return
	}
	x.faulted = true
	x.inAtFault = x.in
	x.mu.Unlock()
	x.kill(x.plan.Do)
}

// Release lets a connection stalled by Late continue.
func (x *Session) Release() {
	x.mu.Lock()
	x.released = true
	x.mu.Unlock()
	x.cond.Broadcast()
}

// Resume lets a connection held by Stop read and respond again.
func (x *Session) Resume() {
	x.mu.Lock()
	x.plan.Do, x.plan.In, x.faulted = None, -1, false
	x.mu.Unlock()
	x.stopOnce.Do(func() { close(x.stopped) })
	x.cond.Broadcast()
}

// Marks counts how often the server's Marker was received on this connection.
func (x *Session) Marks() int {
	x.mu.Lock()
	defer x.mu.Unlock()
	return x.marks
}

// Kill acts on the connection now.
func (x *Session) Kill(a Action) {
	x.mu.Lock()
	x.faulted = true
	x.plan.Do = a
	x.mu.Unlock()
	x.stopOnce.Do(func() { close(x.stopped) })
	x.kill(a)
}

func (x *Session) kill(a Action) {
	switch a {
	case FIN:
		x.raw.Close()
	case RST:
		if t, ok := x.raw.(*net.TCPConn); ok {
			t.SetLinger(0)
		}
		x.raw.Close()
	case Half:
		if t, ok := x.raw.(*net.TCPConn); ok {
			t.CloseWrite()
		} else {
			x.raw.Close()
		}
	}
	x.cond.Broadcast()
}

// Faulted tells whether the fault has happened.
func (x *Session) Faulted() bool {
	x.mu.Lock()
	defer x.mu.Unlock()
	return x.faulted
}

// Bytes returns bytes received and sent.
func (x *Session) Bytes() (in, out int64) {
	x.mu.Lock()
	defer x.mu.Unlock()
	return x.in, x.out
}

// EOF tells whether the client closed its side (or the connection ended).
func (x *Session) EOF() bool {
	x.mu.Lock()
	defer x.mu.Unlock()
	return x.eof
}

// Wait waits until the session is over or the time passed.
func (x *Session) Wait(d time.Duration) bool {
	select {
	case <-x.done:
		return true
	case <-time.After(d):
		return false
	}
}

// RunsIn is how many RUN messages have arrived, processed or not.
func (x *Session) RunsIn() int64 { return atomic.LoadInt64(&x.inRuns) }

// Done is closed when the session is over.
func (x *Session) Done() <-chan struct{} { return x.done }

// Requests returns a copy of the request log.
func (x *Session) Requests() []*Request {
	x.mu.Lock()
	defer x.mu.Unlock()
	return append([]*Request(nil), x.Reqs...)
}

// Status returns state and transaction state.
func (x *Session) Status() (state, tx string) {
	x.mu.Lock()
	defer x.mu.Unlock()
	return x.state, x.tx
}

// Inited tells whether INIT succeeded.
func (x *Session) Inited() bool {
	x.mu.Lock()
	defer x.mu.Unlock()
	return x.InitOK
}

// ReadError is the error that ended the reading side.
func (x *Session) ReadError() string {
	x.mu.Lock()
	defer x.mu.Unlock()
	return x.readErr
}

func (x *Session) send(b []byte) {
	x.mu.Lock()
	x.outq = append(x.outq, b...)
	x.mu.Unlock()
	x.cond.Broadcast()
}

func (x *Session) writer() {
	s := x.srv
	for {
		x.mu.Lock()
		for {
			if x.outClosed {
				x.mu.Unlock()
				return
			}
			blocked := x.faulted && !(x.plan.Do == Late && x.released) && x.plan.Do != None
			if len(x.outq) > 0 && !blocked {
				break
			}
			x.cond.Wait()
		}
		n := len(x.outq)
		switch s.Frag {
		case 1:
			n = 1 + x.wr.Intn(n)
		case 2:
			n = 1
		}
		if x.plan.FragHS && x.out < 64 {
			n = 1
		}
		if s.Drip > 0 && n > s.DripSize {
			n = s.DripSize
		}
		if x.plan.Out >= 0 && !x.faulted && int64(n) > x.plan.Out-x.out {
			n = int(x.plan.Out - x.out)
		}
		b := x.outq[:n:n]
		x.outq = x.outq[n:]
		slow := x.plan.FragHS && x.out < 64
		x.mu.Unlock()
		if n > 0 {
			if _, err := x.conn.Write(b); err != nil {
				x.mu.Lock()
				x.outClosed = true
				x.mu.Unlock()
				return
			}
		}
		s.tick()
		x.mu.Lock()
		x.out += int64(n)
		hit := x.plan.Out > 0 && x.out >= x.plan.Out && !x.faulted
		x.mu.Unlock()
		if hit {
			x.fault()
		}
		if s.Drip > 0 {
			time.Sleep(s.Drip)
		} else if slow {
			time.Sleep(time.Millisecond)
		} else if s.Frag != 0 && s.Frag != 2 && x.wr.Intn(8) == 0 {
			time.Sleep(time.Duration(x.wr.Intn(200)) * time.Microsecond)
		}
	}
}

func success(m ref.Map) ref.Struct {
	if m == nil {
		m = ref.Map{}
	}
	return ref.Struct{Sig: ref.SigSuccess, Fields: []interface{}{m}}
}

func failure(m ref.Map) ref.Struct {
	return ref.Struct{Sig: ref.SigFailure, Fields: []interface{}{m}}
}

func record(row []interface{}) ref.Struct {
	if row == nil {
		row = []interface{}{}
	}
	return ref.Struct{Sig: ref.SigRecord, Fields: []interface{}{row}}
}

var ignored = ref.Struct{Sig: ref.SigIgnored}

var kinds = map[byte]string{ref.SigInit: "INIT", ref.SigAck: "ACK_FAILURE", ref.SigReset: "RESET", ref.SigRun: "RUN", ref.SigDiscard: "DISCARD_ALL", ref.SigPull: "PULL_ALL"}

func (x *Session) process(msgs chan ref.Msg) {
	for m := range msgs {
		x.handle(m)
		x.srv.tick()
	}
	// connection gone: anything uncommitted is rolled back
	x.mu.Lock()
	x.tx, x.pending = "", nil
	x.mu.Unlock()
}

// respond records and sends one response.
func (x *Session) respond(r *Request, resp ref.Struct) {
	x.mu.Lock()
	if !x.srv.Forget {
		r.Responses = append(r.Responses, resp)
	}
	x.mu.Unlock()
	if x.plan.Mangle == nil {
		x.send(x.frame(x.encode(resp)))
	}
}

func (x *Session) encode(resp ref.Struct) []byte {
	e := ref.Enc{}
	if x.srv.Wide {
		e.R = x.r
	}
	return e.Append(nil, resp)
}

func (x *Session) frame(body []byte) []byte {
	if x.srv.Chunk <= 0 {
		return ref.Frame(nil, body, nil)
	}
	return ref.Frame(nil, body, func(int) int { return 1 + x.r.Intn(x.srv.Chunk) })
}

func (x *Session) handle(m ref.Msg) {
	s := x.srv
	if len(m.Body) == 0 {
		return // a no-op chunk
	}
	w, info, err := ref.ReadAll(m.Body)
	if err != nil {
		s.breach("packstream", "message %s does not decode: %v", ref.Hex(m.Body), err)
		x.kill(FIN)
		return
	}
	if info.NonMinimal != "" {
		s.breach("packstream", "message %s: %s", ref.Hex(m.Body), info.NonMinimal)
	}
	st, ok := w.(ref.Struct)
	if !ok || kinds[st.Sig] == "" {
		s.breach("illegal", "not a client message: %s", ref.Hex(m.Body))
		x.kill(FIN)
		return
	}
	x.mu.Lock()
	r := &Request{Seq: len(x.Reqs), Kind: kinds[st.Sig], Fields: st.Fields, State: x.state, InTx: x.tx != "", Sizes: m.Sizes}
	x.mu.Unlock()
	switch st.Sig {
	case ref.SigRun:
		if len(st.Fields) != 2 {
			s.breach("illegal", "RUN with %d fields", len(st.Fields))
		} else {
			q, ok1 := st.Fields[0].(string)
			_, ok2 := st.Fields[1].(map[string]interface{})
			if !ok1 || !ok2 {
				s.breach("illegal", "RUN with fields %T, %T", st.Fields[0], st.Fields[1])
			}
			r.Query, r.Params = q, st.Fields[1]
		}
	case ref.SigInit:
		if len(st.Fields) != 2 {
			s.breach("illegal", "INIT with %d fields", len(st.Fields))
		}
	default:
		if len(st.Fields) != 0 {
			s.breach("illegal", "%s with %d fields", r.Kind, len(st.Fields))
		}
	}
	x.mu.Lock()
	if !x.srv.Forget {
		x.Reqs = append(x.Reqs, r)
	}
	x.mu.Unlock()
	if s.OnRequest != nil {
		s.OnRequest(x, r)
	}
	x.transition(r)
	if x.plan.Mangle != nil {
		var bodies [][]byte
		for _, resp := range r.Responses {
			bodies = append(bodies, x.encode(resp))
		}
		for _, b := range x.plan.Mangle(r, bodies) {
			if len(b) > 0 && b[0] == 0xEF && len(b) > 1 && b[1] == 0xEF { // raw marker: send unframed
				x.send(b[2:])
				continue
			}
			x.send(x.frame(b))
		}
	}
}

func (x *Session) setState(st string) {
	x.mu.Lock()
	x.state = st
	x.mu.Unlock()
}

// TerminatedMeta is the failure metadata for work in a failed transaction.
var TerminatedMeta = ref.Map{"code": "Neo.ClientError.Transaction.TransactionTerminated", "message": "transaction terminated"}

func (x *Session) transition(r *Request) {
	s := x.srv
	illegal := func() {
		s.breach("illegal", "session %d: %s in state %s (request %d)", x.ID, r.Kind, r.State, r.Seq)
		x.fail(r, ref.Map{"code": "Neo.ClientError.Request.Invalid", "message": "illegal " + r.Kind + " in " + r.State})
	}
	if r.Kind == "INIT" {
		x.inits++
		if x.inits > 1 {
			s.breach("illegal", "session %d: INIT was sent again", x.ID)
		}
	}
	switch r.State {
	case "CONNECTED":
		if r.Kind != "INIT" {
			illegal()
			return
		}
		if x.plan.RawInit != nil {
			x.send(x.plan.RawInit)
			return
		}
		if x.plan.Init != nil {
			for _, b := range x.plan.Init {
				x.send(x.frame(b))
				if len(b) > 1 && b[1] == ref.SigFailure {
					x.setState("INITFAILED")
				}
			}
			return
		}
		x.mu.Lock()
		x.InitOK = true
		x.state = "READY"
		x.mu.Unlock()
		x.respond(r, success(ref.Map{"server": "Neo4j/3.0.4"}))
	case "INITFAILED":
		// what a client does after a failed INIT other than leaving is its own
		// business, as long as it sends no work
		switch r.Kind {
		case "ACK_FAILURE", "RESET":
			if x.plan.Mangle == nil { // else the answer may be another than this
				x.setState("CONNECTED")
			}
			x.respond(r, success(nil))
		case "INIT":
			x.respond(r, ignored)
		default:
			s.breach("illegal", "session %d: %s after a failed INIT", x.ID, r.Kind)
			x.respond(r, ignored)
		}
	case "READY":
		switch r.Kind {
		case "RUN":
			x.doRun(r)
		case "RESET":
			x.doReset(r)
		default:
			illegal()
		}
	case "STREAMING":
		switch r.Kind {
		case "PULL_ALL", "DISCARD_ALL":
			x.doPull(r)
		case "RESET":
			x.doReset(r)
		default:
			illegal()
		}
	case "FAILED":
		switch r.Kind {
		case "RUN", "PULL_ALL", "DISCARD_ALL":
			x.respond(r, ignored)
		case "ACK_FAILURE":
			if s.AckFail != nil {
				if m := s.AckFail(x); m != nil {
					x.respond(r, failure(m))
					return
				}
			}
			x.setState("READY")
			x.respond(r, success(nil))
		case "RESET":
			x.doReset(r)
		default:
			illegal()
		}
	}
}

func (x *Session) doReset(r *Request) {
	x.mu.Lock()
	x.tx, x.pending, x.cur = "", nil, nil
	x.state = "READY"
	x.mu.Unlock()
	x.respond(r, success(nil))
}

// fail answers with FAILURE; inside a transaction the transaction fails too.
func (x *Session) fail(r *Request, m ref.Map) {
	x.mu.Lock()
	x.state = "FAILED"
	x.cur = nil
	if x.tx == "open" {
		x.tx = "failed"
		x.pending = nil
	}
	x.mu.Unlock()
	x.respond(r, failure(m))
}

func (x *Session) commit(effects []string) {
	x.srv.mu.Lock()
	x.srv.commits = append(x.srv.commits, effects...)
	x.srv.mu.Unlock()
}

func (x *Session) doRun(r *Request) {
	s := x.srv
	switch r.Query {
	case "BEGIN", "COMMIT", "ROLLBACK":
		var m, late ref.Map
		if s.TxFail != nil {
			m = s.TxFail(x, r.Query)
		}
		if m != nil && s.TxFailPull != nil && s.TxFailPull(x, r.Query) {
			m, late = nil, m
		}
		_, tx := x.Status()
		if m == nil {
			switch {
			case r.Query == "BEGIN" && tx != "":
				s.breach("illegal", "session %d: BEGIN inside a transaction", x.ID)
				m = ref.Map{"code": "Neo.ClientError.Transaction.TransactionStartFailed", "message": "nested"}
			case r.Query == "COMMIT" && tx == "":
				m = ref.Map{"code": "Neo.ClientError.Transaction.TransactionNotFound", "message": "no transaction to commit"}
			case r.Query == "ROLLBACK" && tx == "":
				m = ref.Map{"code": "Neo.ClientError.Transaction.TransactionNotFound", "message": "no transaction to roll back"}
			case r.Query == "COMMIT" && tx == "failed":
				x.mu.Lock()
				x.tx, x.pending = "", nil
				x.mu.Unlock()
				m = ref.Map{"code": "Neo.ClientError.Transaction.TransactionMarkedAsFailed", "message": "rolled back"}
			}
		}
		if m != nil {
			x.fail(r, m)
			return
		}
		if late != nil {
			x.mu.Lock()
			x.cur = &Script{FailPull: late}
			x.state = "STREAMING"
			x.mu.Unlock()
			x.respond(r, success(ref.Map{"fields": []interface{}{}}))
			return
		}
		x.mu.Lock()
		switch r.Query {
		case "BEGIN":
			x.tx, x.pending = "open", nil
		case "COMMIT":
			p := x.pending
			x.tx, x.pending = "", nil
			x.mu.Unlock()
			x.commit(p)
			x.mu.Lock()
		case "ROLLBACK":
			x.tx, x.pending = "", nil
		}
		x.cur = &Script{}
		header := ref.Map{"fields": []interface{}{}}
		if x.txs++; x.txs%3 != 1 {
			// what servers have to say about transactions
			mark := fmt.Sprintf("neo4j:bookmark:v1:tx%d", x.txs)
			header["result_available_after"] = int64(x.txs)
			x.cur.PullMeta = ref.Map{"type": "w", "result_consumed_after": int64(0)}
			if r.Query != "ROLLBACK" {
				header["bookmark"], x.cur.PullMeta["bookmark"] = mark, mark
			}
		}
		x.state = "STREAMING"
		x.mu.Unlock()
		x.respond(r, success(header))
		return
	}
	sc := s.Handler(x, r.Query, r.Params)
	if sc == nil {
		s.breach("illegal", "session %d: RUN of a statement nobody asked for: %q", x.ID, r.Query)
		sc = &Script{FailRun: ref.Map{"code": "Neo.ClientError.Statement.SyntaxError", "message": "unknown statement"}}
	}
	if sc.Gate != nil {
		sc.Gate(-1)
	}
	if _, tx := x.Status(); tx == "failed" {
		x.fail(r, TerminatedMeta)
		return
	}
	if sc.FailRun != nil {
		x.fail(r, sc.FailRun)
		return
	}
	x.mu.Lock()
	x.cur = sc
	x.state = "STREAMING"
	x.mu.Unlock()
	x.respond(r, success(sc.RunMeta))
}

func (x *Session) doPull(r *Request) {
	x.mu.Lock()
	sc := x.cur
	x.mu.Unlock()
	n := len(sc.Rows)
	if sc.FailPull != nil && sc.FailPullAt < n {
		n = sc.FailPullAt
	}
	if r.Kind == "PULL_ALL" {
		for i := 0; i < n; i++ {
			if sc.Gate != nil {
				sc.Gate(i)
			}
			x.respond(r, record(sc.Rows[i]))
		}
	}
	if sc.Gate != nil {
		sc.Gate(len(sc.Rows))
	}
	if sc.FailPull != nil {
		x.fail(r, sc.FailPull)
		return
	}
	x.mu.Lock()
	inTx := x.tx != ""
	if sc.Effect != "" && inTx {
		x.pending = append(x.pending, sc.Effect)
	}
	x.cur = nil
	x.state = "READY"
	x.mu.Unlock()
	if sc.Effect != "" && !inTx {
		x.commit([]string{sc.Effect})
	}
	x.respond(r, success(sc.PullMeta))
}
