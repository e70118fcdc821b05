package suites

import (
	"io/ioutil"
	"log"
	"time"

	blog "github.com/johnnadratowski/golang-neo4j-bolt-driver/log"

	"vf/h"
	"vf/ref"
)

func init() {
	register(Suite{Name: "conc.mix", Props: []string{"C18"}, Race: true, Run: concMix})
}

// concMix runs the workloads of the other suites, 16 cases at a time, in the
// race-detecting build: every case has its own connections, so whatever the
// detector reports in the driver is state shared between connections.
func concMix(c *h.Ctx) {
	const suite = "conc.mix"
	c.Rule(suite, "the histories of session.model, sql.model, sql.values, open.handshake, tls.verify, fault.mangle, tx.reset, result.meta, stream.lazy, codec.refuse, codec.split and errors.chain, up to 32 at a time on connections of their own, under the race detector; all but result.meta and fault.mangle once more with trace logging on")
	run := func(div int, f func(*h.Ctx)) {
		c.Div = div
		t := time.Now()
		f(c)
		c.Count("conc.mix_ms", int64(time.Since(t)/time.Millisecond))
	}
	all := func(more int) {
		run(20*more, sessionModel)
		run(20*more, sqlModel)
		run(20*more, sqlValues)
		run(10*more, openHandshake)
		run(10*more, tlsVerify)
		run(10*more, txReset)
		if more == 1 {
			run(20, resultMeta)
			run(20, faultMangle)
		}
		run(10*more, streamLazy)
		run(20*more, codecRefuse)
		run(20*more, codecSplit)
		run(20*more, errorsChain)
	}
	all(1)
	for _, l := range []*log.Logger{blog.ErrorLog, blog.InfoLog, blog.TraceLog} {
		l.SetOutput(ioutil.Discard)
	}
	// tracing dumps the whole buffer of every read, in quadratic time
	blog.SetLevel("trace")
	ref.AllSmall = true
	all(8)
	ref.AllSmall = false
	blog.SetLevel("none")
	c.Div = 0
}
