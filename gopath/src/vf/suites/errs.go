package suites

import (
	"database/sql/driver"
	stderrors "errors"
	"fmt"
	"io"
	"net"
	"strings"
	"sync"

	"github.com/johnnadratowski/golang-neo4j-bolt-driver/errors"
	"github.com/johnnadratowski/golang-neo4j-bolt-driver/structures/messages"

	"vf/h"
	"vf/ref"
)

func init() {
	register(Suite{Name: "errors.chain", Props: []string{"C24"}, Run: errorsChain})
}

type weirdErr struct{ s []string }

func (w weirdErr) Error() string { return strings.Join(w.s, "|") }

type ptrErr struct{ n int }

func (p *ptrErr) Error() string { return fmt.Sprintf("ptr %d", p.n) }

type wrapsOwn struct{ in error }

func (w *wrapsOwn) Error() string { return "outside(" + w.in.Error() + ")" }

// errorsChain builds chains of wraps and compares every accessor with the chain.
func errorsChain(c *h.Ctx) {
	const suite = "errors.chain"
	c.Rule(suite, "chains of 0-400 wraps over errors of many kinds (package errors, io.EOF, driver.ErrBadConn, server failures, network errors, uncomparable, foreign wrappers around package errors), messages of any text with and without format arguments of any kind and number; Inner, InnerMost and the text of every layer are compared with the chain, also from several goroutines at once. Distinct by chain")
	n := c.Pick(10000, 400000)
	c.Each(suite, n, func(w, i int, name string) {
		r := c.Rand(suite, i)
		g := &ref.Gen{R: r, Budget: 10}
		msg := func() (string, []interface{}, string) {
			s := strings.Replace(g.String(r.Intn(30)), "%", "%%", -1)
			switch r.Intn(6) {
			case 0:
				return "", nil, ""
			case 1:
				s = "a%%b\n\tc"
			case 2:
				v := g.GoValue(2)
				return s + " %v", []interface{}{v}, fmt.Sprintf(s+" %v", v)
			case 3:
				a, b := g.String(r.Intn(100)), g.Int()
				return "%s=%d " + s, []interface{}{a, b}, fmt.Sprintf("%s=%d "+s, a, b)
			case 4: // wrong number or kinds of arguments must not hurt
				return "%d %s" + s, []interface{}{"x"}, fmt.Sprintf("%d %s"+s, "x")
			}
			return s, nil, strings.Replace(s, "%%", "%", -1)
		}
		var base error
		var texts []string
		var chain []error
		kind := r.Intn(10)
		switch kind {
		case 0:
			f, a, want := msg()
			base = errors.New(f, a...)
			texts = append(texts, want)
		case 1:
			base = io.EOF
		case 2:
			base = driver.ErrBadConn
		case 3:
			m, _ := ref.Wire(g.Props(2))
			mm, _ := m.(map[string]interface{})
			base = messages.NewFailureMessage(mm)
		case 4:
			base = &net.OpError{Op: "read", Net: "tcp", Err: stderrors.New("connection reset by peer")}
		case 5:
			base = weirdErr{[]string{g.String(5), g.String(9)}}
		case 6:
			base = &ptrErr{r.Intn(1000)}
		case 7:
			f, a, want := msg()
			base = &wrapsOwn{errors.Wrap(io.EOF, f, a...)}
			texts = append(texts, want)
		case 8:
			base = stderrors.New("")
		default:
			base = stderrors.New(g.String(r.Intn(200)))
		}
		if _, own := base.(*errors.Error); !own {
			texts = append(texts, base.Error())
		}
		depth := r.Intn(6)
		if r.Intn(20) == 0 {
			depth = r.Intn(60)
		}
		if r.Intn(300) == 0 {
			depth = r.Intn(400)
		}
		bad := func(f string, a ...interface{}) {
			viol(c, suite, name, []string{"C24"}, fmt.Sprintf("%T wrapped %d times: ", base, depth)+fmt.Sprintf(f, a...))
		}
		o := h.Direct(func() {
			chain = []error{base}
			cur := base
			for k := 0; k < depth; k++ {
				f, a, want := msg()
				e := errors.Wrap(cur, f, a...)
				chain = append(chain, e)
				texts = append(texts, want)
				cur = e
			}
			verify := func() {
				for k := len(chain) - 1; k >= 0; k-- {
					e, own := chain[k].(*errors.Error)
					if !own {
						break
					}
					if depth > 60 && k < depth-2 && k%37 != i%37 {
						continue // deep chains: some of the layers
					}
					if k > 0 && !sameErr(e.Inner(), chain[k-1]) {
						bad("Inner of layer %d is %v instead of %v", k, e.Inner(), chain[k-1])
					}
					if k == 0 && e.Inner() != nil {
						bad("Inner of an error wrapping nothing is %v", e.Inner())
					}
					if !sameErr(e.InnerMost(), base) {
						bad("InnerMost of layer %d is a %T instead of the original %T", k, e.InnerMost(), base)
					}
					txt := e.Error()
					for j, t := range texts[:len(texts)-(len(chain)-1-k)] {
						if !strings.Contains(txt, t) {
							bad("the text of layer %d lacks message %d %q", k, j, trunc(t, 80))
						}
					}
					if s := fmt.Sprintf("%v", e); s != txt {
						bad("formatting gives another text")
					}
					c.Count("errors.layers", 1)
				}
			}
			verify()
			for b := r.Intn(3); b > 0; b-- { // any layer may be wrapped more than once
				k := r.Intn(len(chain))
				f, a, want := msg()
				e := errors.Wrap(chain[k], f, a...)
				if !sameErr(e.Inner(), chain[k]) || !sameErr(e.InnerMost(), base) || !strings.Contains(e.Error(), want) {
					bad("layer %d wrapped again has Inner %v, InnerMost %v, text %q", k, e.Inner(), e.InnerMost(), trunc(e.Error(), 80))
				}
				c.Count("errors.branches", 1)
			}
			if i%50 == 0 {
				var wg sync.WaitGroup
				for k := 0; k < 4; k++ {
					wg.Add(1)
					go func() {
						defer wg.Done()
						verify()
						if w := errors.Wrap(chain[len(chain)-1], "once more"); w.InnerMost() == nil || w.Error() == "" {
							bad("an error wrapped by several goroutines got lost")
						}
					}()
				}
				wg.Wait()
			}
			verify()
		})
		if o.Bad() {
			bad("%s", o.String())
		}
		c.Eval(fmt.Sprintf("%d/%d/%q", kind, depth, texts))
		c.SampleN(suite, 3, func() interface{} {
			return map[string]interface{}{"suite": suite, "original": fmt.Sprintf("%T", base), "depth": depth}
		})
	})
}

// sameErr compares identity, or text and type where errors can't be compared.
func sameErr(a, b error) (same bool) {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	defer func() {
		if recover() != nil {
			same = fmt.Sprintf("%T %v", a, a) == fmt.Sprintf("%T %v", b, b)
		}
	}()
	return a == b
}
