// Package h is the harness core: case scheduling, guarded calls with panic and
// hang detection, violation reporting and evidence counters.
package h

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io/ioutil"
	"math/rand"
	"os"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Violation is one observed breach.
type Violation struct {
	Props []string `json:"props"`
	Suite string   `json:"suite"`
	Case  string   `json:"case"`
	What  string   `json:"what"`
	Trace []string `json:"trace,omitempty"`
}

// Result is what a child process reports.
type Result struct {
	Violations   []Violation       `json:"violations"`
	Known        []string          `json:"known"`
	Inconclusive []string          `json:"inconclusive"`
	Evals        int64             `json:"evals"`
	Distinct     int64             `json:"distinct"`
	Counters     map[string]int64  `json:"counters"`
	Samples      []interface{}     `json:"samples"`
	Rules        map[string]string `json:"rules"`
	Done         bool              `json:"done"`
}

// Ctx is shared by the suites of one child.
type Ctx struct {
	Property string
	Tier     string
	Seed     int64
	Thorough bool
	Only     string // run only this case
	Workers  int
	Div      int // divides the amount of work, when greater than 1

	mu       sync.Mutex
	res      Result
	distinct map[uint64]struct{}
	slots    []byte
	perSuite map[string]int
	stop     int32
}

// MaxViolations per suite before it stops early.
const MaxViolations = 8

// NewCtx makes a context.
func NewCtx(prop, tier string, seed int64, slotsFile string) *Ctx {
	c := &Ctx{Property: prop, Tier: tier, Seed: seed, Thorough: tier == "thorough", Workers: 2 * runtime.NumCPU(),
		distinct: map[uint64]struct{}{}, perSuite: map[string]int{}}
	if c.Workers > 32 {
		c.Workers = 32
	}
	if c.Workers < 8 {
		c.Workers = 8
	}
	c.res.Counters = map[string]int64{}
	c.res.Rules = map[string]string{}
	if slotsFile != "" {
		f, err := os.OpenFile(slotsFile, os.O_RDWR|os.O_CREATE, 0600)
		if err == nil {
			f.Truncate(64 * 256)
			c.slots, _ = syscall.Mmap(int(f.Fd()), 0, 64*256, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
			f.Close()
		}
	}
	return c
}

// Pick returns q for the quick tier and t for the thorough one.
func (c *Ctx) Pick(q, t int) int {
	if c.Thorough && c.Div <= 1 {
		return t
	}
	if d := c.Div; d > 1 {
		if c.Thorough {
			if q < t {
				q *= 4
			}
		}
		if q > t {
			return q * d
		}
		if q >= 2*d {
			return q / d
		}
		return q
	}
	// VF_DIV makes quick quicker, for trying many changes one after another
	if d, _ := strconv.Atoi(os.Getenv("VF_DIV")); d > 1 {
		if q > t {
			return q * d
		}
		if q >= 2*d {
			return q / d
		}
	}
	return q
}

// Mark notes the case a worker is running, for crash attribution.
func (c *Ctx) Mark(worker int, s string) {
	if c.slots == nil {
		return
	}
	o := (worker % 64) * 256
	if len(s) > 255 {
		s = s[:255]
	}
	n := copy(c.slots[o:o+255], s)
	c.slots[o+n] = 0
}

// Count adds to a counter.
func (c *Ctx) Count(k string, n int64) {
	c.mu.Lock()
	c.res.Counters[k] += n
	c.mu.Unlock()
}

// CountMax keeps the maximum.
func (c *Ctx) CountMax(k string, n int64) {
	c.mu.Lock()
	if c.res.Counters[k] < n {
		c.res.Counters[k] = n
	}
	c.mu.Unlock()
}

// Eval counts one evaluated case; key identifies it for distinctness, "" means
// trivial.
func (c *Ctx) Eval(key string) {
	c.mu.Lock()
	c.res.Evals++
	if key != "" {
		f := fnv.New64a()
		f.Write([]byte(key))
		c.distinct[f.Sum64()] = struct{}{}
	}
	c.mu.Unlock()
}

// EvalBytes is Eval keyed by bytes.
func (c *Ctx) EvalBytes(pfx string, b []byte) {
	f := fnv.New64a()
	f.Write([]byte(pfx))
	f.Write(b)
	s := f.Sum64()
	c.mu.Lock()
	c.res.Evals++
	c.distinct[s] = struct{}{}
	c.mu.Unlock()
}

// Sample keeps a few written-out cases.
func (c *Ctx) Sample(v interface{}) {
	c.mu.Lock()
	if len(c.res.Samples) < 12 {
		c.res.Samples = append(c.res.Samples, v)
	}
	c.mu.Unlock()
}

// SampleN keeps up to n samples labelled by suite.
func (c *Ctx) SampleN(suite string, n int, f func() interface{}) {
	c.mu.Lock()
	k := "\x00sample:" + suite
	if c.perSuite[k] >= n {
		c.mu.Unlock()
		return
	}
	c.perSuite[k]++
	c.mu.Unlock()
	c.Sample(f())
}

// Rule documents how a suite makes cases.
func (c *Ctx) Rule(suite, rule string) {
	c.mu.Lock()
	c.res.Rules[suite] = rule
	c.mu.Unlock()
}

// Violate records a violation.
func (c *Ctx) Violate(v Violation) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.perSuite[v.Suite]++
	if c.perSuite[v.Suite] > 4*MaxViolations && !has(v.Props, c.Property) {
		return
	}
	c.res.Violations = append(c.res.Violations, v)
}

// Full tells whether a suite has reported enough for this property.
func (c *Ctx) Full(suite string) bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	n := 0
	for _, v := range c.res.Violations {
		if v.Suite == suite && has(v.Props, c.Property) {
			n++
		}
	}
	// violations of other properties don't end the search soon
	return n >= MaxViolations || c.perSuite[suite] >= 40*MaxViolations
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// Known records that a listed finding was observed.
func (c *Ctx) Known(s string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, k := range c.res.Known {
		if k == s {
			return
		}
	}
	c.res.Known = append(c.res.Known, s)
}

// Inconclusive notes something that was seen once but not confirmed.
func (c *Ctx) Inconclusive(f string, a ...interface{}) {
	c.mu.Lock()
	c.res.Inconclusive = append(c.res.Inconclusive, fmt.Sprintf(f, a...))
	c.mu.Unlock()
}

// Write writes the result file.
func (c *Ctx) Write(path string, done bool) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.res.Done = done
	c.res.Distinct = int64(len(c.distinct))
	b, err := json.Marshal(&c.res)
	if err != nil {
		fmt.Fprintln(os.Stderr, "result encoding:", err)
		return
	}
	ioutil.WriteFile(path+".tmp", b, 0644)
	os.Rename(path+".tmp", path)
}

// Rand gives a generator for a case.
func (c *Ctx) Rand(suite string, i int) *rand.Rand {
	f := fnv.New64a()
	fmt.Fprintf(f, "%s/%d/%d", suite, c.Seed, i)
	return rand.New(rand.NewSource(int64(f.Sum64())))
}

// Each runs fn for i in [0,n) on the worker pool; name is the case name prefix.
func (c *Ctx) Each(suite string, n int, fn func(worker, i int, name string)) {
	c.EachW(suite, n, c.Workers, fn)
}

// EachW is Each with a given number of workers.
func (c *Ctx) EachW(suite string, n, workers int, fn func(worker, i int, name string)) {
	var next int64 = -1
	var wg sync.WaitGroup
	if workers > n {
		workers = n
	}
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n || c.Full(suite) || atomic.LoadInt32(&c.stop) != 0 || raceErrors() > 40 {
					c.Mark(w, "")
					return
				}
				name := fmt.Sprintf("%s#%d", suite, i)
				if c.Only != "" && c.Only != name {
					continue
				}
				c.Mark(w, name)
				fn(w, i, name)
			}
		}(w)
	}
	wg.Wait()
}

// Heartbeat -----------------------------------------------------------------

var ticks int64

// Tick is the heartbeat period.
const Tick = 5 * time.Millisecond

func init() {
	go func() {
		for {
			time.Sleep(Tick)
			atomic.AddInt64(&ticks, 1)
		}
	}()
}

// Ticks returns the heartbeat count.
func Ticks() int64 { return atomic.LoadInt64(&ticks) }

// Outcome of a guarded call.
type Outcome struct {
	Panic interface{}
	Stack string
	Hung  bool
	Ticks int64
}

// Bad tells whether the call panicked or hung.
func (o Outcome) Bad() bool { return o.Panic != nil || o.Hung }

// String describes it.
func (o Outcome) String() string {
	if o.Panic != nil {
		return fmt.Sprintf("panic: %v\n%s", o.Panic, Trim(o.Stack))
	}
	if o.Hung {
		return "did not return"
	}
	return "returned"
}

// Trim shortens a stack to its interesting lines.
func Trim(s string) string {
	lines := strings.Split(s, "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "golang-neo4j-bolt-driver") || strings.Contains(l, "panic") {
			out = append(out, l)
		}
		if len(out) >= 14 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// Direct runs fn in this goroutine, capturing panics only.
func Direct(fn func()) (o Outcome) {
	defer func() {
		if p := recover(); p != nil {
			o.Panic = p
			b := make([]byte, 16384)
			o.Stack = string(b[:runtime.Stack(b, false)])
		}
	}()
	fn()
	return
}

// goid is the number of the calling goroutine.
func goid() string {
	var b [40]byte
	f := strings.Fields(string(b[:runtime.Stack(b[:], false)]))
	if len(f) > 1 {
		return f[1]
	}
	return "?"
}

// busy tells from a dump of all goroutines whether goroutine id, or one it
// started, is computing rather than waiting.
func busy(stacks, id string) bool {
	for _, g := range strings.Split(stacks, "\n\n") {
		if !strings.HasPrefix(g, "goroutine "+id+" ") && !strings.Contains(g, " in goroutine "+id+"\n") {
			continue
		}
		if i := strings.IndexByte(g, '['); i >= 0 && (strings.HasPrefix(g[i:], "[running") || strings.HasPrefix(g[i:], "[runnable") || strings.HasPrefix(g[i:], "[GC") || strings.HasPrefix(g[i:], "[syscall")) {
			return true
		}
	}
	return false
}

// busyFactor is how many times longer a call may take while it computes.
const busyFactor = 20

// Guard runs fn in a goroutine. It is considered hung when `limit` heartbeat
// ticks pass during which activity() did not change (activity may be nil: then
// limit counts from the start), or a multiple of it if it is computing rather
// than waiting. unblock is called once when a hang is found and the goroutine
// is given a further `limit` ticks to return.
func Guard(limit int64, activity func() int64, unblock func(), fn func()) Outcome {
	var o Outcome
	done := make(chan struct{})
	var id atomic.Value
	go func() {
		defer close(done)
		id.Store(goid())
		o = Direct(fn)
	}()
	start := Ticks()
	select {
	case <-done:
		return o
	case <-time.After(2 * Tick):
	}
	last := Ticks()
	next, idle := limit, 0
	var act int64
	if activity != nil {
		act = activity()
	}
	for {
		select {
		case <-done:
			o.Ticks = Ticks() - start
			return o
		case <-time.After(Tick):
		}
		now := Ticks()
		if activity != nil {
			if a := activity(); a != act {
				act, last, next, idle = a, now, limit, 0
			}
		}
		if now-last >= next {
			buf := make([]byte, 1<<20)
			n := runtime.Stack(buf, true)
			if n == len(buf) {
				buf = make([]byte, 32<<20)
				n = runtime.Stack(buf, true)
			}
			stacks := string(buf[:n])
			if me, _ := id.Load().(string); now-last < busyFactor*limit && (me == "" || busy(stacks, me)) {
				next, idle = now-last+limit/10+1, 0
				continue
			}
			if idle++; idle < 3 { // seen waiting three times in a row
				next = now - last + 20
				continue
			}
			res := Outcome{Hung: true, Stack: stacks, Ticks: now - start}
			if unblock != nil {
				unblock()
				for Ticks()-now < limit {
					select {
					case <-done:
						return res
					case <-time.After(Tick):
					}
				}
			}
			return res
		}
	}
}

// SortedKeys of a counter map.
func SortedKeys(m map[string]int64) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// Stop ends all suites of this child early.
func (c *Ctx) Stop() { atomic.StoreInt32(&c.stop, 1) }

// Stopped tells whether Stop was called.
func (c *Ctx) Stopped() bool { return atomic.LoadInt32(&c.stop) != 0 }
