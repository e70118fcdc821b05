// Package suites holds the workloads and their oracles.
package suites

import (
	"os"
	"strings"

	"vf/h"
)

// Suite is a workload whose monitors can report violations of Props.
type Suite struct {
	Name  string
	Props []string
	Race  bool // needs the race-instrumented binary
	Rec   bool // needs the binary with access to the recorder
	Rlim  bool // runs under an address-space limit
	Run   func(c *h.Ctx)
}

// All suites.
var All []Suite

func register(s Suite) { All = append(All, s) }

// For returns the suites that can decide a property.
func For(prop string) []Suite {
	var out []Suite
	if prop == "ALL" {
		first := "session.model pool.model fault.mangle tx.reset sql.model sql.values sql.fault stream.gate stream.pipeline stream.lazy result.meta open.handshake open.url codec.split codec.refuse codec.roundtrip errors.chain record.play fault.cut fault.stuck codec.frame"
		if v := os.Getenv("VF_SUITES"); v != "" { // just these
			for _, s := range All {
				if strings.Contains(" "+v+" ", " "+s.Name+" ") {
					out = append(out, s)
				}
			}
			return out
		}
		for _, n := range strings.Fields(first) {
			for _, s := range All {
				if s.Name == n {
					out = append(out, s)
				}
			}
		}
		for _, s := range All {
			if !strings.Contains(" "+first+" ", " "+s.Name+" ") {
				out = append(out, s)
			}
		}
		return out
	}
	for _, s := range All {
		for _, p := range s.Props {
			if p == prop {
				out = append(out, s)
				break
			}
		}
	}
	return out
}

func viol(c *h.Ctx, suite, name string, props []string, what string, trace ...string) {
	c.Violate(h.Violation{Props: props, Suite: suite, Case: name, What: what, Trace: trace})
}
