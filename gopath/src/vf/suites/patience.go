package suites

import (
	"fmt"
	"time"

	bolt "github.com/johnnadratowski/golang-neo4j-bolt-driver"

	"vf/boltsrv"
	"vf/h"
)

func init() {
	register(Suite{Name: "pool.wait", Props: []string{"C15", "C17", "C16"}, Run: poolWait})
}

// poolWait keeps all connections of a pool checked out for a long time while
// others wait for one.
func poolWait(c *h.Ctx) {
	const suite = "pool.wait"
	hold := 6 * time.Second
	if c.Thorough {
		hold = 100 * time.Second
	}
	c.Rule(suite, fmt.Sprintf("pools of 1 to 3, all checked out for %s (with a connection timeout of 1 s, or none given), 1 to 4 waiting: nobody may be let in and no further connection opened in that time; then each return lets exactly one in, on a connection that works, and at the end the pool closes with one still waiting. Distinct by size, number waiting, URL and kind of pool", hold))
	type wc struct {
		max, waiters int
		opts         string
		closable     bool
		broken       bool
	}
	var cases []wc
	for max := 1; max <= 3; max++ {
		for _, waiters := range []int{1, 4} {
			for _, o := range []string{"", "?timeout=1"} {
				for _, cl := range []bool{true, false} {
					for _, br := range []bool{false, true} {
						cases = append(cases, wc{max, waiters, o, cl, br})
					}
				}
			}
		}
	}
	c.EachW(suite, len(cases), len(cases), func(w, i int, name string) {
		tc := cases[i]
		desc := fmt.Sprintf("pool of %d, %d waiting, options %q, closable %v, a held connection broke %v", tc.max, tc.waiters, tc.opts, tc.closable, tc.broken)
		bad := func(props []string, f string, a ...interface{}) {
			viol(c, suite, name, props, desc+": "+fmt.Sprintf(f, a...))
		}
		srv := openServer()
		srv.Start()
		defer srv.Close()
		var p bolt.DriverPool
		var cp bolt.ClosableDriverPool
		var err error
		if tc.closable {
			cp, err = bolt.NewClosableDriverPool(srv.URL()+tc.opts, tc.max)
			p = cp
		} else {
			p, err = bolt.NewDriverPool(srv.URL()+tc.opts, tc.max)
		}
		if err != nil {
			bad([]string{"C15"}, "%v", err)
			return
		}
		type got struct {
			cn  bolt.Conn
			err error
		}
		out := make(chan got, tc.waiters+tc.max)
		var held []bolt.Conn
		for k := 0; k < tc.max; k++ {
			go func() { cn, err := p.OpenPool(); out <- got{cn, err} }()
			select {
			case g := <-out:
				if g.err != nil {
					bad([]string{"C15"}, "checkout %d failed: %v", k, g.err)
					return
				}
				held = append(held, g.cn)
			case <-time.After(60 * time.Second):
				bad([]string{"C15"}, "checkout %d waits although nothing is out", k)
				return
			}
		}
		for k := 0; k < tc.waiters; k++ {
			go func() { cn, err := p.OpenPool(); out <- got{cn, err} }()
		}
		if tc.broken {
			srv.Sessions()[0].Kill(boltsrv.RST)
		}
		early := func(d time.Duration) bool {
			select {
			case g := <-out:
				bad([]string{"C15"}, "somebody waiting got %v, error %v, although nothing had been returned", g.cn, g.err)
				return true
			case <-time.After(d):
			}
			if l := srv.Live(); l > int64(tc.max) {
				bad([]string{"C15"}, "%d connections are open", l)
				return true
			}
			return false
		}
		if early(hold) {
			return
		}
		if n := len(srv.Sessions()); n != tc.max {
			bad([]string{"C15"}, "%d connections were opened while %d handles were out", n, tc.max)
		}
		c.Count("wait.held_ms", int64(hold/time.Millisecond))
		left := tc.waiters
		for left > 0 && (left > 1 || !tc.closable) {
			if len(held) == 0 {
				bad([]string{"C15"}, "nothing left to return")
				return
			}
			held[0].Close()
			held = held[1:]
			select {
			case g := <-out:
				if g.err != nil {
					bad([]string{"C15", "C16"}, "the checkout that waited failed: %v", g.err)
					return
				}
				d, _, _, err := g.cn.QueryNeoAll("use", nil)
				if err != nil || len(d) != 1 || d[0][0] != "use" {
					bad([]string{"C16", "C15"}, "the connection waited for does not work: %v %v", d, err)
				}
				held = append(held, g.cn)
				left--
			case <-time.After(60 * time.Second):
				bad([]string{"C15"}, "a connection was returned, but those waiting still wait")
				return
			}
			if left > 0 && early(150*time.Millisecond) {
				return
			}
			c.Count("wait.handovers", 1)
		}
		if tc.closable {
			o := h.Guard(6000, srv.Activity, nil, func() { cp.Close() })
			if o.Bad() {
				bad([]string{"C17"}, "closing: %s", o.String())
				return
			}
			for ; left > 0; left-- {
				select {
				case g := <-out:
					if g.err == nil {
						bad([]string{"C17"}, "a checkout succeeded after the pool was closed")
					}
				case <-time.After(60 * time.Second):
					bad([]string{"C17"}, "a checkout still waits after the pool was closed")
					return
				}
			}
			if !settledLive(srv, 0) {
				bad([]string{"C17"}, "connections remain open after closing the pool")
			}
		}
		for _, cn := range held {
			h.Guard(6000, srv.Activity, nil, func() { cn.Close() })
		}
		c.Eval(desc)
		c.SampleN(suite, 2, func() interface{} { return map[string]interface{}{"suite": suite, "situation": desc} })
	})
}
