package suites

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"runtime/metrics"
	"time"

	"vf/h"
	"vf/ref"

	"github.com/johnnadratowski/golang-neo4j-bolt-driver/encoding"
	"github.com/johnnadratowski/golang-neo4j-bolt-driver/structures/graph"
	"github.com/johnnadratowski/golang-neo4j-bolt-driver/structures/messages"
)

const cpuLimit = 6000 // heartbeat ticks (30 s) for a call that does no I/O

func init() {
	register(Suite{Name: "codec.roundtrip", Props: []string{"C01", "C02", "C04"}, Run: codecRoundtrip})
	register(Suite{Name: "codec.decode", Props: []string{"C01", "C03"}, Run: codecDecode})
	register(Suite{Name: "codec.frame", Props: []string{"C04", "C02"}, Run: codecFrame})
	register(Suite{Name: "codec.split", Props: []string{"C05", "C03"}, Run: codecSplit})
	register(Suite{Name: "codec.garbage", Props: []string{"C06"}, Rlim: true, Run: codecGarbage})
	register(Suite{Name: "codec.refuse", Props: []string{"C07"}, Run: codecRefuse})
}

// guarded codec call: only panics and endless computation can go wrong.
func codecCall(c *h.Ctx, suite, name string, props []string, what string, fn func()) bool {
	o := h.Guard(cpuLimit, nil, nil, fn)
	if o.Bad() {
		viol(c, suite, name, props, what+": "+o.String())
		if o.Hung {
			c.Stop()
		}
		return false
	}
	return true
}

func marshal(v interface{}) (b []byte, err error) { return encoding.Marshal(v) }

// checkEncoding checks framed bytes against the intended wire value.
func checkEncoding(framed []byte, want interface{}, chunk int) (frameErr, valErr string) {
	var u ref.Unframer
	msgs := u.Feed(framed)
	if len(msgs) != 1 || u.Pending() {
		return fmt.Sprintf("framing yields %d complete messages, pending=%v", len(msgs), u.Pending()), ""
	}
	for i, s := range msgs[0].Sizes {
		if chunk > 0 && s > chunk && i+1 < len(msgs[0].Sizes) { // last chunk: see chunk-overrun
			frameErr = fmt.Sprintf("chunk of %d bytes with chunk size %d", s, chunk)
		}
	}
	if len(msgs[0].Sizes) == 0 {
		frameErr = "message without any chunk"
	}
	got, info, err := ref.ReadAll(msgs[0].Body)
	if err != nil {
		return frameErr, fmt.Sprintf("independent reader: %v (body %s)", err, ref.Hex(msgs[0].Body))
	}
	if info.NonMinimal != "" {
		return frameErr, "not the shortest form: " + info.NonMinimal
	}
	if info.DupKey {
		return frameErr, "duplicate map key"
	}
	if ok, why := ref.Equal(want, got); !ok {
		return frameErr, "encodes another value " + why
	}
	return frameErr, ""
}

type bigStruct struct {
	sig int
	f   []interface{}
}

func (b bigStruct) Signature() int           { return b.sig }
func (b bigStruct) AllFields() []interface{} { return b.f }

// deep builds n nested containers around v.
func deep(n int, kind int, v interface{}) interface{} {
	for i := 0; i < n; i++ {
		switch kind {
		case 0:
			v = []interface{}{v}
		case 1:
			v = map[string]interface{}{"k": v}
		default:
			v = graph.Node{NodeIdentity: int64(i % 50), Labels: []string{"L"}, Properties: map[string]interface{}{"p": v}}
		}
	}
	return v
}

// fixedValues are the systematic values: all boundary ints, floats, sizes,
// nestings, messages.
func fixedValues(thorough bool) []interface{} {
	var vs []interface{}
	vs = append(vs, nil, true, false, "", []interface{}{}, map[string]interface{}{}, []interface{}(nil), map[string]interface{}(nil), []string(nil), []int{}, [][]string{{"a"}, {}, nil})
	for _, i := range ref.EdgeInts {
		vs = append(vs, i, int(i), []interface{}{i}, map[string]interface{}{"i": i})
		if i >= math.MinInt32 && i <= math.MaxInt32 {
			vs = append(vs, int32(i))
		}
		if i >= math.MinInt16 && i <= math.MaxInt16 {
			vs = append(vs, int16(i))
		}
		if i >= math.MinInt8 && i <= math.MaxInt8 {
			vs = append(vs, int8(i))
		}
		if i >= 0 {
			vs = append(vs, uint64(i), uint(i))
			if i <= math.MaxUint32 {
				vs = append(vs, uint32(i))
			}
			if i <= math.MaxUint16 {
				vs = append(vs, uint16(i))
			}
			if i <= math.MaxUint8 {
				vs = append(vs, uint8(i))
			}
		}
	}
	for _, f := range ref.EdgeFloats {
		vs = append(vs, f)
		if f == f {
			vs = append(vs, float32(f))
		}
	}
	sizes := ref.EdgeSizes
	if thorough {
		sizes = append(append([]int{}, sizes...), 100000, 131072, 200000, 1<<20, 3<<20)
	}
	for _, n := range sizes {
		for _, v := range ref.Sized(n) {
			vs = append(vs, v)
			if n < 70000 {
				vs = append(vs, []interface{}{int64(1), v, "tail"}, map[string]interface{}{"x": v})
			}
		}
		if n < 66000 {
			labels := make([]string, n)
			seq := make([]int, n)
			for i := range labels {
				labels[i] = "L"
				seq[i] = i - 5
			}
			vs = append(vs, graph.Node{NodeIdentity: int64(n), Labels: labels, Properties: map[string]interface{}{"a": int64(n)}})
			vs = append(vs, graph.Path{Nodes: []graph.Node{{NodeIdentity: 1, Labels: []string{"A"}, Properties: map[string]interface{}{}}}, Relationships: []graph.UnboundRelationship{}, Sequence: seq})
			if n > 0 {
				vs = append(vs, graph.Relationship{RelIdentity: int64(n), StartNodeIdentity: -1, EndNodeIdentity: int64(n), Type: ref.Sized(n)[0].(string), Properties: map[string]interface{}{}})
				vs = append(vs, graph.UnboundRelationship{RelIdentity: int64(-n), Type: ref.Sized(n)[0].(string), Properties: map[string]interface{}{"n": int64(n)}})
			}
		}
	}
	for _, n := range []int{15, 16, 128, 255, 256, 301, 1000, 32768, 65536} {
		l, m := make([]interface{}, n), make(map[string]interface{}, n)
		for i := range l {
			l[i] = mixed(i)
			m[fmt.Sprintf("k%d", i)] = mixed(i * 7)
		}
		vs = append(vs, l, m, graph.Node{NodeIdentity: 5, Labels: []string{"A", "B"}, Properties: m}, graph.UnboundRelationship{RelIdentity: 7, Type: "T", Properties: m})
	}
	// far beyond every header boundary
	for _, n := range []int{1<<20 + 1, 1<<24 + 3} {
		vs = append(vs, ref.SizedString(n))
	}
	vs = append(vs, ref.Sized(1<<20 + 3)[1], ref.Sized(1<<18 + 3)[2])
	for k := 0; k < 3; k++ {
		for _, n := range []int{1, 2, 15, 16, 100, 1000, 9000} {
			vs = append(vs, deep(n, k, "leaf"))
		}
	}
	return vs
}

func mixed(i int) interface{} {
	switch i % 13 {
	case 0:
		return nil
	case 1:
		return true
	case 2:
		return false
	case 3:
		return int64(i)
	case 4:
		return int64(-i) << 20
	case 5:
		return ""
	case 6:
		return fmt.Sprintf("text %d", i)
	case 7:
		return float64(i) / 3
	case 8:
		return []interface{}{}
	case 9:
		return map[string]interface{}{}
	case 10:
		return []interface{}{nil, int64(i)}
	case 11:
		return map[string]interface{}{"i": nil}
	}
	return int64(0)
}

func fixedMessages() []interface{} {
	ps := map[string]interface{}{"a": int64(1), "b": []interface{}{"x", nil, 1.5}, "c": map[string]interface{}{"d": true}}
	var out []interface{}
	out = append(out,
		messages.NewRunMessage("RETURN 1", nil),
		messages.NewRunMessage("", map[string]interface{}{}),
		messages.NewRunMessage("RETURN $x, 'ü漢🙂'", ps),
		messages.NewInitMessage("GolangNeo4jBolt/1.0", "", ""),
		messages.NewInitMessage("GolangNeo4jBolt/1.0", "neo4j", "p:w@d"),
		messages.NewAckFailureMessage(), messages.NewResetMessage(), messages.NewPullAllMessage(), messages.NewDiscardAllMessage(),
		messages.NewSuccessMessage(ps), messages.NewFailureMessage(ps), messages.NewIgnoredMessage(), messages.NewRecordMessage([]interface{}{int64(1), "a"}))
	for _, n := range ref.EdgeSizes {
		out = append(out, messages.NewRunMessage(ref.Sized(n)[0].(string), map[string]interface{}{"p": ref.Sized(n)[1]}))
	}
	for _, n := range []int{0, 1, 15, 16, 17, 127, 128, 255, 256, 257, 32768, 65535} {
		out = append(out, bigStruct{0x66, ref.Sized(n)[1].([]interface{})})
	}
	return out
}

func wireOfMessage(v interface{}) interface{} {
	switch m := v.(type) {
	case messages.RunMessage, messages.InitMessage:
		_ = m
	}
	w, err := ref.Wire(v)
	if err != nil {
		panic(err)
	}
	return w
}

func codecRoundtrip(c *h.Ctx) {
	const suite = "codec.roundtrip"
	c.Rule(suite, "systematic values at every width/size boundary and nesting kind, plus random nested values over every accepted Go type; each is marshalled, the bytes are read by the independent reader (value, shortest form, framing), then unmarshalled and compared exactly; a case is distinct by its encoded bytes")
	fixed := fixedValues(c.Thorough)
	msgs := fixedMessages()
	random := c.Pick(12000, 150000)
	n := len(fixed) + len(msgs) + random
	c.Each(suite, n, func(w, i int, name string) {
		var v interface{}
		isMsg := false
		switch {
		case i < len(fixed):
			v = fixed[i]
		case i < len(fixed)+len(msgs):
			v = msgs[i-len(fixed)]
			isMsg = true
		default:
			g := &ref.Gen{R: c.Rand(suite, i), Budget: 400, Graph: true, Raw: i%6 == 0}
			v = g.GoValue(1 + g.R.Intn(5))
		}
		want, err := ref.Wire(v)
		if err != nil {
			panic("generator made an unencodable value: " + err.Error())
		}
		var b []byte
		var merr error
		if !codecCall(c, suite, name, []string{"C01", "C02"}, "Marshal of "+ref.Short(v), func() { b, merr = marshal(v) }) {
			return
		}
		c.EvalBytes("rt", b)
		if merr != nil {
			viol(c, suite, name, []string{"C01", "C02"}, fmt.Sprintf("Marshal of supported value %s failed: %v", ref.Short(v), firstLine(merr)))
			return
		}
		fe, ve := checkEncoding(b, want, 65535)
		if fe != "" {
			viol(c, suite, name, []string{"C04", "C02", "C01"}, "Marshal "+ref.Short(v)+": "+fe)
			return
		}
		if ve != "" {
			viol(c, suite, name, []string{"C02"}, "Marshal "+ref.Short(v)+": "+ve)
		}
		if isMsg {
			c.Count("codec.messages_encoded", 1)
			return
		}
		exp, verdict := ref.Expect(want)
		if verdict != ref.MustValue {
			return
		}
		var got interface{}
		var uerr error
		if !codecCall(c, suite, name, []string{"C01"}, "Unmarshal of marshalled "+ref.Short(v), func() { got, uerr = encoding.Unmarshal(b) }) {
			return
		}
		if uerr != nil {
			viol(c, suite, name, []string{"C01"}, fmt.Sprintf("Unmarshal of marshalled %s failed: %v", ref.Short(v), firstLine(uerr)))
			return
		}
		if ok, why := ref.Equal(exp, got); !ok {
			viol(c, suite, name, []string{"C01"}, "round trip changed the value "+why)
		}
		c.Count("codec.roundtrips", 1)
		if i >= len(fixed)+len(msgs) {
			c.SampleN(suite, 2, func() interface{} {
				return map[string]string{"suite": suite, "value": ref.Short(v), "bytes": ref.Hex(b)}
			})
		}
	})
}

func firstLine(err error) string {
	s := err.Error()
	for i := 0; i < len(s); i++ {
		if s[i] == '\n' {
			return s[:i]
		}
	}
	if len(s) > 300 {
		s = s[:300]
	}
	return s
}

func codecDecode(c *h.Ctx) {
	const suite = "codec.decode"
	c.Rule(suite, "bytes made by the independent writer in shortest, widest and random permitted integer/size widths, over all tiny markers, all ints -70000..70000 in every width, every size boundary in every header class, random nested values, graph structures and server messages; decoding must give exactly the denoted value")
	type job struct {
		name string
		body func() []byte
	}
	// systematic part: batches of small values
	decodeBody := func(name string, body []byte, chunk func(int) int) bool {
		w, _, info, err := ref.Read(body)
		if err != nil {
			panic("reference writer made bytes its reader refuses: " + err.Error())
		}
		_ = info
		exp, verdict := ref.Expect(w)
		if verdict != ref.MustValue {
			return true
		}
		framed := ref.Frame(nil, body, chunk)
		var got interface{}
		var derr error
		if !codecCall(c, suite, name, []string{"C03"}, "decoding "+ref.Hex(body), func() { got, derr = encoding.Unmarshal(framed) }) {
			return false
		}
		if derr != nil {
			viol(c, suite, name, []string{"C03"}, fmt.Sprintf("valid encoding %s of %s refused: %s", ref.Hex(body), ref.Short(w), firstLine(derr)))
			return false
		}
		if ok, why := ref.Equal(exp, got); !ok {
			viol(c, suite, name, []string{"C03"}, fmt.Sprintf("encoding %s decoded wrongly %s", ref.Hex(body), why))
			return false
		}
		return true
	}
	fixed := fixedValues(c.Thorough)
	random := c.Pick(12000, 150000)
	const intBatches = 141 // each covers 1000 ints
	n := intBatches + len(fixed) + random + 1
	c.Each(suite, n, func(w, i int, name string) {
		switch {
		case i < intBatches:
			lo := int64(-70500 + 1000*i)
			for v := lo; v < lo+1000; v++ {
				for width := 0; width < 5; width++ {
					body := intIn(v, width)
					if body == nil {
						continue
					}
					c.EvalBytes("int", body)
					if !decodeBody(name, body, nil) {
						return
					}
				}
			}
			c.Count("codec.int_widths", 1000)
		case i < intBatches+len(fixed):
			v := fixed[i-intBatches]
			wv, _ := ref.Wire(v)
			r := c.Rand(suite, i)
			encs := []ref.Enc{{}, {Wide: true}, {R: r}, {R: r}}
			for _, e := range encs {
				body := e.Append(nil, wv)
				c.EvalBytes("fx", body)
				var ch func(int) int
				if e.R != nil {
					ch = func(rem int) int { return 1 + r.Intn(3000) }
				}
				if !decodeBody(name, body, ch) {
					return
				}
			}
		case i < intBatches+len(fixed)+random:
			r := c.Rand(suite, i)
			g := &ref.Gen{R: r, Budget: 400, Graph: true}
			wv := g.WireValue(1 + r.Intn(5))
			switch r.Intn(6) {
			case 0:
				wv = ref.Struct{Sig: ref.SigRecord, Fields: []interface{}{[]interface{}{wv, "x"}}}
			case 1:
				wv = ref.Struct{Sig: ref.SigSuccess, Fields: []interface{}{map[string]interface{}{"m": wv}}}
			case 2:
				wv = ref.Struct{Sig: ref.SigFailure, Fields: []interface{}{map[string]interface{}{"m": wv}}}
			}
			body := ref.Enc{R: r}.Append(nil, wv)
			c.EvalBytes("rd", body)
			if decodeBody(name, body, func(rem int) int { return 1 + r.Intn(rem) }) {
				c.Count("codec.random_decodes", 1)
				c.SampleN(suite, 2, func() interface{} {
					return map[string]string{"suite": suite, "bytes": ref.Hex(body), "value": ref.Short(wv)}
				})
			}
		default:
			// all single-byte values and every tiny header
			for m := 0; m < 256; m++ {
				b := byte(m)
				if b <= 0x7f || b >= 0xf0 || b == 0xc0 || b == 0xc2 || b == 0xc3 || b == 0x80 || b == 0x90 || b == 0xa0 {
					c.EvalBytes("m", []byte{b})
					decodeBody(name, []byte{b}, nil)
				}
			}
			for k := 0; k <= 15; k++ {
				for _, v := range ref.Sized(k) {
					decodeBody(name, ref.Encode(v), nil)
				}
			}
			decodeBody(name, ref.Encode(ref.Struct{Sig: ref.SigIgnored}), nil)
		}
	})
}

// intIn encodes v in the given width class (0 tiny .. 4 int64), nil if it does not fit.
func intIn(v int64, width int) []byte {
	switch width {
	case 0:
		if v < -16 || v > 127 {
			return nil
		}
		return []byte{byte(v)}
	case 1:
		if v < -128 || v > 127 {
			return nil
		}
		return []byte{0xC8, byte(v)}
	case 2:
		if v < -32768 || v > 32767 {
			return nil
		}
		return []byte{0xC9, byte(v >> 8), byte(v)}
	case 3:
		return []byte{0xCA, byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)}
	}
	return []byte{0xCB, byte(v >> 56), byte(v >> 48), byte(v >> 40), byte(v >> 32), byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)}
}

// singleKey removes map-order nondeterminism.
func orderFree(v interface{}) bool {
	switch x := v.(type) {
	case map[string]interface{}:
		if len(x) > 1 {
			return false
		}
		for _, e := range x {
			if !orderFree(e) {
				return false
			}
		}
	case []interface{}:
		for _, e := range x {
			if !orderFree(e) {
				return false
			}
		}
	case ref.Struct:
		for _, e := range x.Fields {
			if !orderFree(e) {
				return false
			}
		}
	}
	return true
}

// limitWriter fails after n bytes.
type limitWriter struct {
	n   int
	buf bytes.Buffer
}

var errSink = errors.New("sink full")

func (l *limitWriter) Write(p []byte) (int, error) {
	if len(p) > l.n {
		k := l.n
		l.buf.Write(p[:k])
		l.n = 0
		return k, errSink
	}
	l.n -= len(p)
	return l.buf.Write(p)
}

var chunkSizes = []uint16{1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 63, 64, 100, 127, 128, 129, 255, 256, 257, 1000, 1024, 4095, 4096, 8192, 16384, 32767, 32768, 32769, 65534, 65535, 0}

func codecFrame(c *h.Ctx) {
	const suite = "codec.frame"
	c.Rule(suite, "values from 1 byte to several times the chunk size are encoded with every notable chunk size (1..65535, 0=default), several in a row on one encoder and on fresh encoders over one stream, and to sinks failing at every offset; the frames are reassembled independently; a case is distinct by (chunk size, value bytes)")
	sizes := []int{0, 1, 2, 3, 5, 8, 13, 14, 15, 16, 17, 30, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 258, 511, 512, 1023, 1024, 4094, 4095, 4096, 8191, 8192, 16384, 32765, 32766, 32767, 32768, 65527, 65528, 65529, 65530, 65531, 65532, 65533, 65534, 65535, 65536, 65540, 131065, 131070, 131071, 140000, 200001}
	sys := len(chunkSizes)
	random := c.Pick(3000, 40000)
	c.Each(suite, sys+random, func(w, i int, name string) {
		if i < sys {
			cs := chunkSizes[i]
			for _, n := range sizes {
				if cs != 0 && cs < 16 && n > 70000 {
					continue
				}
				for kind, v := range ref.Sized(n)[:2] {
					_ = kind
					frameOne(c, suite, name, []interface{}{v}, cs, false)
				}
				frameOne(c, suite, name, []interface{}{messages.NewRunMessage(ref.Sized(n)[0].(string), map[string]interface{}{"k": int64(n)}), messages.NewPullAllMessage()}, cs, false)
				// chunk-relative sizes
			}
			if cs != 0 {
				for d := -9; d <= 9; d++ {
					for m := 1; m <= 3; m++ {
						n := int(cs)*m + d
						if n < 0 || n > 210000 {
							continue
						}
						frameOne(c, suite, name, []interface{}{ref.Sized(n)[0]}, cs, false)
						frameOne(c, suite, name, []interface{}{ref.Sized(n)[1], "after"}, cs, n%2 == 0)
					}
				}
			}
			return
		}
		r := c.Rand(suite, i)
		var cs uint16
		switch r.Intn(4) {
		case 0:
			cs = chunkSizes[r.Intn(len(chunkSizes))]
		case 1:
			cs = uint16(1 + r.Intn(40))
		default:
			cs = uint16(1 + r.Intn(65535))
		}
		var vs []interface{}
		for k := 1 + r.Intn(4); k > 0; k-- {
			g := &ref.Gen{R: r, Budget: 200, Graph: true}
			if r.Intn(8) == 0 {
				vs = append(vs, g.String(r.Intn(150000)))
			} else {
				vs = append(vs, g.GoValue(1+r.Intn(4)))
			}
		}
		frameOne(c, suite, name, vs, cs, r.Intn(2) == 0)
		// failing sink
		if r.Intn(4) == 0 {
			v := vs[0]
			full := &bytes.Buffer{}
			if encoding.NewEncoder(full, cs).Encode(v) == nil && full.Len() < 3000 && full.Len() > 0 {
				at := r.Intn(full.Len())
				lw := &limitWriter{n: at}
				var err error
				if !codecCall(c, suite, name, []string{"C04"}, "Encode to failing sink", func() { err = encoding.NewEncoder(lw, cs).Encode(v) }) {
					return
				}
				if err == nil {
					viol(c, suite, name, []string{"C04", "C11"}, fmt.Sprintf("Encode reported success although the sink failed after %d of %d bytes", at, full.Len()))
				}
				c.Count("codec.failing_sinks", 1)
			}
		}
	})
}

func frameOne(c *h.Ctx, suite, name string, vs []interface{}, cs uint16, sameEncoder bool) {
	var buf bytes.Buffer
	var err error
	enc := encoding.NewEncoder(&buf, cs)
	var bounds []int
	ok := codecCall(c, suite, name, []string{"C04"}, fmt.Sprintf("Encode %s with chunk size %d", ref.Short(vs), cs), func() {
		for _, v := range vs {
			if !sameEncoder {
				enc = encoding.NewEncoder(&buf, cs)
			}
			if err = enc.Encode(v); err != nil {
				return
			}
			bounds = append(bounds, buf.Len())
		}
	})
	if !ok {
		return
	}
	c.EvalBytes(fmt.Sprintf("fr%d", cs), buf.Bytes())
	if err != nil {
		viol(c, suite, name, []string{"C04"}, fmt.Sprintf("Encode %s with chunk size %d failed: %s", ref.Short(vs), cs, firstLine(err)))
		return
	}
	var u ref.Unframer
	msgs := u.Feed(buf.Bytes())
	if len(msgs) != len(vs) || u.Pending() {
		viol(c, suite, name, []string{"C04"}, fmt.Sprintf("%d values with chunk size %d give %d messages (incomplete tail: %v); first value %s", len(vs), cs, len(msgs), u.Pending(), ref.Short(vs[0])))
		return
	}
	pos := 0
	for k, m := range msgs {
		pos += m.Wire
		if pos != bounds[k] {
			viol(c, suite, name, []string{"C04"}, fmt.Sprintf("message %d ends at byte %d but Encode returned after writing %d", k, pos, bounds[k]))
			return
		}
		if len(m.Sizes) == 0 {
			viol(c, suite, name, []string{"C04"}, fmt.Sprintf("empty message for %s", ref.Short(vs[k])))
			return
		}
		for i, s := range m.Sizes {
			if cs != 0 && s > int(cs) && i+1 == len(m.Sizes) && s <= lastChunkBound(m.Body, int(cs)) {
				knownFinding(c, suite, "C04", "chunk-overrun", "the last chunk of a message can be larger than the configured chunk size (encoding/encoder.go flush)")
			} else if cs != 0 && s > int(cs) {
				viol(c, suite, name, []string{"C04"}, fmt.Sprintf("chunk %d of %d has %d bytes with chunk size %d", i+1, len(m.Sizes), s, cs))
				return
			}
		}
		want, werr := ref.Wire(vs[k])
		if werr != nil {
			panic(werr)
		}
		if orderFree(want) {
			if !bytes.Equal(m.Body, ref.Encode(want)) {
				viol(c, suite, name, []string{"C04", "C02"}, fmt.Sprintf("chunk bodies of %s at chunk size %d are not its encoding: %s", ref.Short(vs[k]), cs, ref.Hex(m.Body)))
				return
			}
		} else {
			got, info, err := ref.ReadAll(m.Body)
			if err != nil || info.NonMinimal != "" {
				viol(c, suite, name, []string{"C04", "C02"}, fmt.Sprintf("chunk bodies of %s at chunk size %d do not decode: %v %s", ref.Short(vs[k]), cs, err, info.NonMinimal))
				return
			}
			if ok, why := ref.Equal(want, got); !ok {
				viol(c, suite, name, []string{"C04", "C02"}, fmt.Sprintf("at chunk size %d %s", cs, why))
				return
			}
		}
		c.Count("codec.chunks_seen", int64(len(m.Sizes)))
	}
	c.Count("codec.framed_messages", int64(len(msgs)))
}

// splitReader delivers data in scripted pieces, optionally with an error
// alongside the last piece.
type splitReader struct {
	data  []byte
	r     *rand.Rand
	mode  int // 0 one byte, 1 random, 2 all at once, 3 random and final data with EOF, 4 final data with an error, 5 random with empty reads
	read  int
	calls int
}

var errTail = errors.New("tail error")

func (s *splitReader) Read(p []byte) (int, error) {
	s.calls++
	if len(s.data) == 0 {
		if s.mode == 4 {
			return 0, errTail
		}
		return 0, io.EOF
	}
	n := len(p)
	if n > len(s.data) {
		n = len(s.data)
	}
	if s.mode == 5 && s.r.Intn(4) == 0 {
		return 0, nil
	}
	switch s.mode {
	case 0:
		if n > 1 {
			n = 1
		}
	case 1, 3, 4, 5:
		if n > 1 {
			n = 1 + s.r.Intn(n)
		}
	}
	copy(p, s.data[:n])
	s.data = s.data[n:]
	s.read += n
	if len(s.data) == 0 {
		switch s.mode {
		case 3:
			return n, io.EOF
		case 4:
			return n, errTail
		}
	}
	return n, nil
}

func codecSplit(c *h.Ctx) {
	const suite = "codec.split"
	c.Rule(suite, "streams of 1..5 back-to-back messages, each cut into chunks at random (including all 1-byte chunks and chunks split inside headers), delivered one byte at a time, in random pieces, at once, with empty reads in between, or with the last bytes together with EOF or an error; every decode must give its value and consume exactly its bytes; exhaustive over all 2-cut chunkings of small messages")
	small := []interface{}{
		int64(1), int64(-17), int64(300), int64(1) << 40, "", "hello", ref.Sized(20)[0], 1.5, nil, true,
		[]interface{}{int64(1), "a", nil}, map[string]interface{}{"a": int64(1)},
		ref.Struct{Sig: ref.SigNode, Fields: []interface{}{int64(1), []interface{}{"L"}, map[string]interface{}{"a": "b"}}},
		ref.Struct{Sig: ref.SigRecord, Fields: []interface{}{[]interface{}{int64(1), "abc"}}},
		ref.Struct{Sig: ref.SigSuccess, Fields: []interface{}{map[string]interface{}{"fields": []interface{}{"n"}}}},
		ref.Struct{Sig: ref.SigIgnored},
	}
	random := c.Pick(6000, 80000)
	c.Each(suite, len(small)+random, func(w, i int, name string) {
		if i < len(small) {
			body := ref.Encode(small[i])
			r := c.Rand(suite, i)
			for a := 1; a <= len(body); a++ {
				for b := a; b <= len(body); b++ {
					cuts := []int{a, b - a, len(body) - b}
					k := 0
					framed := ref.Frame(nil, body, func(rem int) int {
						for k < len(cuts) && cuts[k] == 0 {
							k++
						}
						if k >= len(cuts) {
							return rem
						}
						k++
						return cuts[k-1]
					})
					for mode := 0; mode <= 5; mode++ {
						splitOne(c, suite, name, []interface{}{small[i]}, framed, []int{len(framed)}, mode, r, false)
					}
				}
			}
			return
		}
		r := c.Rand(suite, i)
		var vs []interface{}
		var stream []byte
		var ends []int
		for k := 1 + r.Intn(5); k > 0; k-- {
			g := &ref.Gen{R: r, Budget: 120, Graph: true}
			var wv interface{}
			if r.Intn(10) == 0 {
				wv = g.String(r.Intn(140000))
			} else {
				wv = g.WireValue(1 + r.Intn(4))
			}
			vs = append(vs, wv)
			body := ref.Encode(wv)
			max := 1 + r.Intn(1+len(body))
			switch r.Intn(4) {
			case 0:
				max = 1
			case 1:
				max = 65535
			}
			stream = ref.Frame(stream, body, func(rem int) int { return 1 + r.Intn(max) })
			ends = append(ends, len(stream))
		}
		splitOne(c, suite, name, vs, stream, ends, r.Intn(6), r, r.Intn(2) == 0)
	})
}

func splitOne(c *h.Ctx, suite, name string, vs []interface{}, stream []byte, ends []int, mode int, r *rand.Rand, sameDecoder bool) {
	sr := &splitReader{data: stream, r: r, mode: mode}
	dec := encoding.NewDecoder(sr)
	for k, v := range vs {
		exp, verdict := ref.Expect(v)
		if verdict != ref.MustValue {
			return
		}
		if !sameDecoder {
			dec = encoding.NewDecoder(sr)
		}
		var got interface{}
		var err error
		if !codecCall(c, suite, name, []string{"C05"}, "Decode "+ref.Short(v), func() { got, err = dec.Decode() }) {
			return
		}
		if err != nil {
			viol(c, suite, name, []string{"C05", "C03"}, fmt.Sprintf("message %d/%d (%s) delivered in mode %d refused: %s", k+1, len(vs), ref.Short(v), mode, firstLine(err)))
			return
		}
		if ok, why := ref.Equal(exp, got); !ok {
			viol(c, suite, name, []string{"C05", "C03"}, fmt.Sprintf("message %d/%d delivered in mode %d decoded wrongly %s", k+1, len(vs), mode, why))
			return
		}
		if sr.read != ends[k] {
			viol(c, suite, name, []string{"C05"}, fmt.Sprintf("decoding message %d consumed %d bytes of the stream, its end is at %d", k+1, sr.read, ends[k]))
			return
		}
	}
	c.Count("codec.split_messages", int64(len(vs)))
	c.Count("codec.split_reads", int64(sr.calls))
	c.EvalBytes(fmt.Sprintf("sp%d", mode), stream)
}

// garbage -------------------------------------------------------------------

func heapAllocs() uint64 {
	s := []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

// judge decides what decoding the unframed body must do.
func judge(body []byte) (interface{}, ref.Verdict, string) {
	w, n, info, err := ref.Read(body)
	if err == ref.ErrTooDeep {
		return nil, ref.Unspecified, "too deep"
	}
	if err != nil {
		return nil, ref.MustError, err.Error()
	}
	exp, v := ref.Expect(w)
	if v == ref.MustValue && (n != len(body) || info.DupKey || info.BadUTF8) {
		return nil, ref.Unspecified, "trailing bytes, duplicate key or invalid UTF-8"
	}
	why := ""
	if v == ref.MustError {
		why = "unknown or ill-typed structure"
	}
	return exp, v, why
}

func garbageOne(c *h.Ctx, suite, name string, body []byte, framed []byte, kind string) {
	exp, verdict, why := judge(body)
	garbageVerdict(c, suite, name, body, framed, kind, exp, verdict, why)
}

func garbageVerdict(c *h.Ctx, suite, name string, body, framed []byte, kind string, exp interface{}, verdict ref.Verdict, why string) {
	var got interface{}
	var err error
	o := h.Guard(cpuLimit, nil, nil, func() { got, err = encoding.NewDecoder(bytes.NewReader(framed)).Decode() })
	if o.Bad() {
		viol(c, suite, name, []string{"C06"}, fmt.Sprintf("decoding %s input %s: %s", kind, ref.Hex(framed), o.String()))
		if o.Hung {
			c.Stop()
		}
		return
	}
	c.EvalBytes("g", framed)
	c.Count("codec.garbage."+kind, 1)
	switch verdict {
	case ref.MustError:
		c.Count("codec.garbage.must_error", 1)
		if err == nil {
			viol(c, suite, name, []string{"C06"}, fmt.Sprintf("%s input %s (%s) was accepted as %s", kind, ref.Hex(framed), why, ref.Short(got)))
			return
		}
	case ref.MustValue:
		c.Count("codec.garbage.still_valid", 1)
		if err != nil {
			viol(c, suite, name, []string{"C06", "C03"}, fmt.Sprintf("valid input %s refused: %s", ref.Hex(framed), firstLine(err)))
			return
		}
		if ok, w := ref.Equal(exp, got); !ok {
			viol(c, suite, name, []string{"C06", "C03"}, fmt.Sprintf("input %s decoded wrongly %s", ref.Hex(framed), w))
			return
		}
	}
	if err == io.EOF {
		viol(c, suite, name, []string{"C06"}, fmt.Sprintf("%s input %s reported as a clean end of stream (io.EOF)", kind, ref.Hex(framed)))
	}
}

func typedFieldCases() [][]byte {
	vals := []interface{}{nil, true, int64(1), 1.5, "s", []interface{}{}, []interface{}{int64(1)}, []interface{}{"x"}, map[string]interface{}{}, map[string]interface{}{"a": int64(1)},
		ref.Struct{Sig: ref.SigNode, Fields: []interface{}{int64(1), []interface{}{}, map[string]interface{}{}}},
		ref.Struct{Sig: ref.SigUnbound, Fields: []interface{}{int64(1), "T", map[string]interface{}{}}},
		[]interface{}{ref.Struct{Sig: ref.SigNode, Fields: []interface{}{int64(1), []interface{}{}, map[string]interface{}{}}}},
		[]interface{}{ref.Struct{Sig: ref.SigUnbound, Fields: []interface{}{int64(1), "T", map[string]interface{}{}}}},
		[]interface{}{nil}, []interface{}{1.5}, []interface{}{[]interface{}{}},
	}
	good := []ref.Struct{
		{Sig: ref.SigNode, Fields: []interface{}{int64(1), []interface{}{"L"}, map[string]interface{}{"a": int64(1)}}},
		{Sig: ref.SigRel, Fields: []interface{}{int64(1), int64(2), int64(3), "T", map[string]interface{}{}}},
		{Sig: ref.SigUnbound, Fields: []interface{}{int64(1), "T", map[string]interface{}{}}},
		{Sig: ref.SigPath, Fields: []interface{}{[]interface{}{}, []interface{}{}, []interface{}{int64(1)}}},
		{Sig: ref.SigSuccess, Fields: []interface{}{map[string]interface{}{}}},
		{Sig: ref.SigFailure, Fields: []interface{}{map[string]interface{}{}}},
		{Sig: ref.SigRecord, Fields: []interface{}{[]interface{}{}}},
	}
	var out [][]byte
	for _, g := range good {
		for i := range g.Fields {
			for _, v := range vals {
				s := ref.Struct{Sig: g.Sig, Fields: append([]interface{}{}, g.Fields...)}
				s.Fields[i] = v
				out = append(out, ref.Encode(s), ref.Encode([]interface{}{int64(7), s, "t"}), ref.Encode(map[string]interface{}{"s": s}),
					ref.Encode(ref.Struct{Sig: ref.SigRecord, Fields: []interface{}{[]interface{}{s}}}))
			}
		}
		// wrong field counts
		less := ref.Struct{Sig: g.Sig, Fields: g.Fields[:len(g.Fields)-1]}
		more := ref.Struct{Sig: g.Sig, Fields: append(append([]interface{}{}, g.Fields...), int64(9))}
		out = append(out, ref.Encode(less), ref.Encode(more), ref.Encode([]interface{}{less, int64(1)}), ref.Encode([]interface{}{more, int64(1)}))
	}
	// unknown signatures
	known := map[int]bool{}
	for _, s := range []int{ref.SigInit, ref.SigAck, ref.SigReset, ref.SigRun, ref.SigDiscard, ref.SigPull, ref.SigSuccess, ref.SigRecord, ref.SigIgnored, ref.SigFailure, ref.SigNode, ref.SigRel, ref.SigUnbound, ref.SigPath} {
		known[s] = true
	}
	for s := 0; s < 256; s++ {
		if known[s] {
			continue
		}
		for n := 0; n <= 3; n++ {
			st := ref.Struct{Sig: byte(s), Fields: []interface{}{int64(1), "a", map[string]interface{}{}}[:n]}
			out = append(out, ref.Encode(st), ref.Encode([]interface{}{st}))
		}
	}
	// non-string map keys
	for _, k := range vals {
		if _, ok := k.(string); ok {
			continue
		}
		b := append([]byte{0xA1}, ref.Encode(k)...)
		b = append(b, 0x01)
		out = append(out, b, append([]byte{0x91}, b...))
		b2 := append([]byte{0xA2, 0x81, 'a', 0x01}, ref.Encode(k)...)
		out = append(out, append(b2, 0x02))
	}
	// unknown markers
	for m := 0xC4; m <= 0xEF; m++ {
		switch byte(m) {
		case 0xC8, 0xC9, 0xCA, 0xCB, 0xD0, 0xD1, 0xD2, 0xD4, 0xD5, 0xD6, 0xD8, 0xD9, 0xDA, 0xDC, 0xDD:
			continue
		}
		out = append(out, []byte{byte(m)}, []byte{byte(m), 0, 0, 0, 0, 0, 0, 0, 0}, []byte{0x92, byte(m), 1}, []byte{0xA1, 0x81, 'a', byte(m)})
	}
	return out
}

func bombs() [][]byte {
	var out [][]byte
	for _, m := range []byte{0xD0, 0xD1, 0xD2, 0xD4, 0xD5, 0xD6, 0xD8, 0xD9, 0xDA, 0xDC, 0xDD} {
		w := 1
		switch m & 3 {
		case 1:
			w = 2
		case 2:
			w = 4
		}
		for _, top := range []byte{0xFF, 0x7F, 0x80, 0x40, 0x10} {
			hd := []byte{m, top}
			for len(hd) < 1+w {
				hd = append(hd, 0xFF)
			}
			for _, tail := range [][]byte{nil, {1}, {0x81, 'a', 1}, {0x4E, 1, 0x90, 0xA0}} {
				b := append(append([]byte{}, hd...), tail...)
				out = append(out, b, append([]byte{0x91}, b...), append([]byte{0xB1, 0x71, 0x91}, b...), append([]byte{0xB1, 0x70, 0xA1, 0x81, 'k'}, b...))
			}
			// several nested bombs
			var nest []byte
			for k := 0; k < 40; k++ {
				nest = append(nest, hd...)
				if m >= 0xD8 && m <= 0xDA {
					nest = append(nest, 0x81, 'k')
				}
			}
			out = append(out, nest)
		}
	}
	return out
}

func codecGarbage(c *h.Ctx) {
	const suite = "codec.garbage"
	c.Rule(suite, "every truncation of representative messages (body re-framed, and raw stream), systematic ill-typed structure fields, wrong field counts, all unknown markers and signatures, oversized size headers (allocation measured), nesting up to millions of levels, and random byte mutations; the independent strict reader decides whether an error is required; run under an address-space limit")
	seeds := [][]byte{}
	add := func(v interface{}) { seeds = append(seeds, ref.Encode(v)) }
	add(ref.Struct{Sig: ref.SigRecord, Fields: []interface{}{[]interface{}{int64(1), "abc", 1.5, nil, true, int64(-500), int64(70000), int64(1) << 40}}})
	add(ref.Struct{Sig: ref.SigSuccess, Fields: []interface{}{map[string]interface{}{"fields": []interface{}{"a", "b"}, "t": int64(12)}}})
	add(ref.Struct{Sig: ref.SigFailure, Fields: []interface{}{map[string]interface{}{"code": "Neo.X", "message": "boom"}}})
	add(ref.Struct{Sig: ref.SigIgnored})
	node := ref.Struct{Sig: ref.SigNode, Fields: []interface{}{int64(300), []interface{}{"L", "Mm"}, map[string]interface{}{"a": "b", "c": int64(1)}}}
	unb := ref.Struct{Sig: ref.SigUnbound, Fields: []interface{}{int64(4), "T", map[string]interface{}{"z": 0.5}}}
	add(node)
	add(ref.Struct{Sig: ref.SigRel, Fields: []interface{}{int64(1), int64(200), int64(-40000), "KNOWS", map[string]interface{}{"since": int64(1999)}}})
	add(ref.Struct{Sig: ref.SigPath, Fields: []interface{}{[]interface{}{node, node}, []interface{}{unb}, []interface{}{int64(1), int64(1)}}})
	add([]interface{}{ref.Sized(20)[0], ref.Sized(300)[0], ref.Sized(20)[1], ref.Sized(20)[2]})
	add(ref.Sized(300)[1])
	add(ref.Sized(200)[2])
	add(ref.Struct{Sig: ref.SigRecord, Fields: []interface{}{[]interface{}{node, unb, []interface{}{node}}}})

	// 1. sequential: bombs and nesting with allocation monitoring
	if c.Only == "" || c.Only == suite+"#bomb" || c.Only == suite+"#nest" {
		name := suite + "#bomb"
		c.Mark(0, name)
		measure := func(name, kind string, body []byte) {
			framed := ref.Frame(nil, body, nil)
			before := heapAllocs()
			t0 := h.Ticks()
			var err error
			var got interface{}
			o := h.Guard(cpuLimit, nil, nil, func() { got, err = encoding.NewDecoder(bytes.NewReader(framed)).Decode() })
			used := heapAllocs() - before
			if o.Bad() {
				viol(c, suite, name, []string{"C06"}, fmt.Sprintf("decoding %s input (%d bytes, %s): %s", kind, len(body), ref.Hex(body), o.String()))
				return
			}
			_ = t0
			limit := uint64(16<<20) + 1000*uint64(len(body))
			c.CountMax("codec.max_alloc_bytes_small_input", int64(used))
			c.EvalBytes(kind, body)
			c.Count("codec.garbage."+kind, 1)
			if used > limit {
				viol(c, suite, name, []string{"C06"}, fmt.Sprintf("decoding %d bytes of %s input (%s) allocated %d bytes", len(body), kind, ref.Hex(body), used))
			}
			_, verdict, why := judge(body)
			if verdict == ref.MustError && err == nil {
				viol(c, suite, name, []string{"C06"}, fmt.Sprintf("%s input %s (%s) accepted as %s", kind, ref.Hex(body), why, ref.Short(got)))
			}
			if err == io.EOF {
				viol(c, suite, name, []string{"C06"}, fmt.Sprintf("%s input %s reported as io.EOF", kind, ref.Hex(body)))
			}
		}
		for _, b := range bombs() {
			if c.Full(suite) {
				break
			}
			measure(name, "bomb", b)
		}
		name = suite + "#nest"
		c.Mark(0, name)
		levels := []int{100, 1000, 10000, 50000, 1000000, 5000000}
		if c.Thorough {
			levels = append(levels, 30000000)
		}
		for _, n := range levels {
			if c.Full(suite) {
				break
			}
			for k, unit := range [][]byte{{0x91}, {0xA1, 0x81, 'k'}, {0xB1, 0x71}, {0xB1, 0x70}, {0xD4, 0x01}, {0xB3, 0x4E}, {0xB3, 0x50, 0x91}, {0x9F}, {0xB1, 0x7E}} {
				c.Mark(0, fmt.Sprintf("%s n=%d kind=%d", name, n, k))
				body := bytes.Repeat(unit, n)
				measure(name, "nest", body)
				measure(name, "nest", append(body, 0x01))
			}
		}
		c.Mark(0, "")
	}
	// 2. systematic, parallel
	typed := typedFieldCases()
	type raw struct{ body, framed []byte }
	var cases []raw
	for _, s := range seeds {
		for n := 0; n < len(s); n++ {
			cases = append(cases, raw{s[:n], ref.Frame(nil, s[:n], nil)})
		}
	}
	nTrunc := len(cases)
	for _, b := range typed {
		cases = append(cases, raw{b, ref.Frame(nil, b, nil)})
	}
	nTyped := len(cases)
	for _, s := range seeds {
		f := ref.Frame(nil, s, nil)
		f2 := ref.Frame(nil, s, func(int) int { return 3 })
		for n := 0; n < len(f); n++ {
			cases = append(cases, raw{nil, f[:n]})
		}
		for n := 0; n < len(f2); n++ {
			cases = append(cases, raw{nil, f2[:n]})
		}
	}
	random := c.Pick(60000, 1000000)
	c.Each(suite, len(cases)+random, func(w, i int, name string) {
		switch {
		case i < nTrunc:
			garbageOne(c, suite, name, cases[i].body, cases[i].framed, "truncated_body")
		case i < nTyped:
			garbageOne(c, suite, name, cases[i].body, cases[i].framed, "ill_typed")
		case i < len(cases):
			garbageVerdict(c, suite, name, nil, cases[i].framed, "truncated_stream", nil, ref.MustError, "stream ends inside the message")
		default:
			r := c.Rand(suite, i)
			var b []byte
			switch r.Intn(5) {
			case 0:
				b = make([]byte, r.Intn(40))
				r.Read(b)
			case 1: // marker soup
				mk := []byte{0xC0, 0xC1, 0xC2, 0xC8, 0xC9, 0xCA, 0xCB, 0xD0, 0xD1, 0xD2, 0xD4, 0xD5, 0xD6, 0xD8, 0xD9, 0xDA, 0xDC, 0xDD, 0x80, 0x81, 0x8f, 0x90, 0x91, 0x93, 0xA0, 0xA1, 0xA2, 0xB0, 0xB1, 0xB3, 0xB5, 0x4E, 0x52, 0x50, 0x72, 0x70, 0x71, 0x7E, 0x7F, 0x00, 0x01, 0xFF, 'a'}
				b = make([]byte, 1+r.Intn(24))
				for k := range b {
					b[k] = mk[r.Intn(len(mk))]
				}
			case 2:
				g := &ref.Gen{R: r, Budget: 40, Graph: true}
				b = ref.Enc{R: r}.Append(nil, g.WireValue(3))
				b = mutate(r, b)
			default:
				b = mutate(r, append([]byte{}, seeds[r.Intn(len(seeds))]...))
			}
			if sizeAhead(b) > 1<<22 {
				// huge size headers are measured in the bomb part
				c.Count("codec.garbage.skipped_huge", 1)
			}
			garbageOne(c, suite, name, b, ref.Frame(nil, b, func(rem int) int { return 1 + r.Intn(rem) }), "mutated")
			c.SampleN(suite, 2, func() interface{} { return map[string]string{"suite": suite, "input": ref.Hex(b)} })
		}
	})
	_ = time.Now
}

func sizeAhead(b []byte) int { return 0 }

func mutate(r *rand.Rand, b []byte) []byte {
	for k := 1 + r.Intn(3); k > 0 && len(b) > 0; k-- {
		p := r.Intn(len(b))
		switch r.Intn(5) {
		case 0:
			b[p] ^= 1 << uint(r.Intn(8))
		case 1:
			b[p] = byte(r.Intn(256))
		case 2:
			b = append(b[:p], b[p+1:]...)
		case 3:
			b = append(b[:p], append([]byte{byte(r.Intn(256))}, b[p:]...)...)
		case 4:
			b = b[:p]
		}
	}
	return b
}

// refusal -------------------------------------------------------------------

type named string
type namedInt int
type namedMap map[string]interface{}

type badVal struct {
	name string
	v    interface{}
}

func badValues() []badVal {
	type st struct{ A int }
	return []badVal{
		{"chan", make(chan int)}, {"func", func() {}}, {"struct", st{1}}, {"empty struct", struct{}{}},
		{"map[int]string", map[int]string{1: "a"}}, {"map[string]string", map[string]string{"a": "b"}}, {"map[interface{}]interface{}", map[interface{}]interface{}{1: 2}},
		{"map[string]int", map[string]int{"a": 1}}, {"complex128", complex(1, 2)}, {"uint64 max", uint64(math.MaxUint64)}, {"uint64 maxint64+1", uint64(math.MaxInt64) + 1},
		{"[]chan", []chan int{make(chan int)}}, {"[]struct", []st{{1}}}, {"[][]func", [][]func(){{func() {}}}}, {"[]uint64", []uint64{1, 2, 1 << 63}},
		{"[]map[int]int", []map[int]int{{1: 1}}},
		{"empty map[int]string", map[int]string{}}, {"empty map[string]string", map[string]string{}}, {"nil map[string]string", map[string]string(nil)}, {"nil map[interface{}]interface{}", map[interface{}]interface{}(nil)},
		{"nil chan", (chan int)(nil)}, {"nil func", (func())(nil)}, {"receive channel", (<-chan string)(make(chan string))}, {"time", time.Unix(1, 0)}, {"duration", time.Second},
		{"pointer to struct", &st{1}}, {"nil pointer to struct", (*st)(nil)}, {"nil pointer to int", (*int)(nil)}, {"pointer to string", func() *string { s := "x"; return &s }()},
		{"array", [2]int{1, 2}}, {"empty array", [0]string{}}, {"array of bytes", [3]byte{1, 2, 3}}, {"complex64", complex64(1)}, {"uintptr", uintptr(1)},
		{"named string", named("x")}, {"named int", namedInt(4)}, {"named map", namedMap{"a": 1}}, {"error", fmt.Errorf("e")},
		{"nil *Node", (*graph.Node)(nil)}, {"nil *Path", (*graph.Path)(nil)}, {"nil *Relationship", (*graph.Relationship)(nil)}, {"nil *UnboundRelationship", (*graph.UnboundRelationship)(nil)},
		{"[]*Node with a nil", []*graph.Node{{Labels: []string{"L"}}, nil}},
		{"[]*int", []*int{nil}}, {"[]error", []error{fmt.Errorf("e")}}, {"[]time", []time.Time{time.Unix(2, 0)}}, {"[]interface{} ending in chan", []interface{}{1, "a", nil, make(chan bool)}},
	}
}

// wrapBad buries a bad value inside an otherwise fine one.
func wrapBad(r *rand.Rand, v interface{}, depth int) interface{} {
	g := &ref.Gen{R: r, Budget: 60, Graph: true}
	for ; depth > 0; depth-- {
		switch r.Intn(7) {
		case 0:
			v = []interface{}{g.GoValue(1), v}
		case 1:
			v = []interface{}{v, g.GoValue(1), "tail"}
		case 2:
			v = map[string]interface{}{"x": v, "y": g.String(r.Intn(300)), "a": 1}
		case 3:
			v = graph.Node{NodeIdentity: 1, Labels: []string{"A"}, Properties: map[string]interface{}{"p": v}}
		case 4:
			v = graph.Relationship{Type: "T", Properties: map[string]interface{}{"p": v, "q": 1}}
		case 5:
			v = graph.Path{Nodes: []graph.Node{{Properties: map[string]interface{}{"v": v}}}, Sequence: []int{1}}
		case 6:
			big := make([]interface{}, 300)
			for i := range big {
				big[i] = "padding padding padding"
			}
			big[r.Intn(300)] = v
			v = big
		}
	}
	return v
}

func codecRefuse(c *h.Ctx) {
	const suite = "codec.refuse"
	c.Rule(suite, "each unsupported kind of value at depth 0..4 inside lists, maps, typed slices and graph structures, encoded with chunk sizes from 1 to 65535: Encode must fail and the sink must receive nothing, and the same encoder and stream must then carry a good value intact; distinct by (kind, depth shape, chunk size)")
	bads := badValues()
	random := c.Pick(6000, 60000)
	n := len(bads)*len(chunkSizes) + random
	c.Each(suite, n, func(w, i int, name string) {
		r := c.Rand(suite, i)
		var bad badVal
		var cs uint16
		v := interface{}(nil)
		if i < len(bads)*len(chunkSizes) {
			bad = bads[i%len(bads)]
			cs = chunkSizes[i/len(bads)]
			v = bad.v
		} else {
			bad = bads[r.Intn(len(bads))]
			cs = chunkSizes[r.Intn(len(chunkSizes))]
			v = wrapBad(r, bad.v, r.Intn(5))
			if r.Intn(3) == 0 {
				v = messages.NewRunMessage("RETURN $x", map[string]interface{}{"a": 1, "b": "xyz", "x": v})
			}
		}
		c.Eval(fmt.Sprintf("%s/%d/%T/%d", bad.name, cs, v, i%97))
		var buf bytes.Buffer
		enc := encoding.NewEncoder(&buf, cs)
		var e1, e0, e2 error
		pre := []interface{}{"before", int64(i)}
		post := []interface{}{"after", int64(i)}
		mid := 0
		withPre := r.Intn(2) == 0
		if !codecCall(c, suite, name, []string{"C07"}, "Encode of unsupported "+bad.name, func() {
			if withPre {
				e0 = enc.Encode(pre)
			}
			mid = buf.Len()
			e1 = enc.Encode(v)
		}) {
			return
		}
		if e0 != nil {
			viol(c, suite, name, []string{"C07", "C04"}, "Encode of a good value failed: "+firstLine(e0))
			return
		}
		if e1 == nil {
			viol(c, suite, name, []string{"C07"}, fmt.Sprintf("Encode accepted a value containing %s", bad.name))
			return
		}
		if buf.Len() != mid {
			viol(c, suite, name, []string{"C07"}, fmt.Sprintf("Encode refused a value containing %s but wrote %d bytes of it (chunk size %d): %s", bad.name, buf.Len()-mid, cs, ref.Hex(buf.Bytes()[mid:])))
			return
		}
		if !codecCall(c, suite, name, []string{"C07"}, "Encode after refusal", func() { e2 = enc.Encode(post) }) {
			return
		}
		if e2 != nil {
			viol(c, suite, name, []string{"C07"}, "Encode of a good value after a refusal failed: "+firstLine(e2))
			return
		}
		if fe, ve := checkEncoding(buf.Bytes()[mid:], []interface{}{"after", int64(i)}, int(cs)); fe != "" || ve != "" {
			viol(c, suite, name, []string{"C07"}, fmt.Sprintf("after a refused value the next message is damaged: %s %s", fe, ve))
			return
		}
		var m []byte
		var merr error
		if !codecCall(c, suite, name, []string{"C07"}, "Marshal of unsupported "+bad.name, func() { m, merr = marshal(v) }) {
			return
		}
		if merr == nil || len(m) != 0 {
			viol(c, suite, name, []string{"C07"}, fmt.Sprintf("Marshal of a value containing %s: err=%v, %d bytes", bad.name, merr != nil, len(m)))
		}
		c.Count("codec.refusals", 1)
		c.SampleN(suite, 2, func() interface{} {
			return map[string]interface{}{"suite": suite, "kind": bad.name, "chunk_size": cs, "outer_type": fmt.Sprintf("%T", v)}
		})
	})
	// Go uint beyond int64: known finding, see known-findings.txt
	if c.Only == "" {
		var b []byte
		var err error
		o := h.Direct(func() { b, err = marshal(uint(math.MaxInt64) + 1) })
		if o.Panic != nil {
			viol(c, suite, suite+"#uint", []string{"C07"}, o.String())
		} else if err == nil {
			v, uerr := encoding.Unmarshal(b)
			if uerr == nil && v == int64(math.MinInt64) {
				knownFinding(c, suite, "C07", "uint-wrap", "Go uint above MaxInt64 is encoded as a negative integer instead of being refused")
			} else {
				viol(c, suite, suite+"#uint", []string{"C07"}, fmt.Sprintf("uint above MaxInt64 encoded as %s", ref.Short(v)))
			}
		} else if len(b) != 0 {
			viol(c, suite, suite+"#uint", []string{"C07"}, "refused uint left bytes")
		}
	}
}

// lastChunkBound is how large the last chunk can get by the known finding
// chunk-overrun: each value longer than the chunk size leaves at most its
// excess behind, everything else nothing.
func lastChunkBound(body []byte, cs int) int {
	bound := cs - 1
	for len(body) > 0 {
		m, n := body[0], 1
		be := func(w int) int {
			v := 0
			for i := 1; i <= w && i < len(body); i++ {
				v = v<<8 | int(body[i])
			}
			return v
		}
		switch {
		case m >= 0x80 && m <= 0x8F:
			n = 1 + int(m-0x80)
		case m == 0xC1 || m == 0xCB:
			n = 9
		case m == 0xC8 || m == 0xD4 || m == 0xD8:
			n = 2
		case m == 0xC9 || m == 0xD5 || m == 0xD9 || m == 0xDC:
			n = 3
		case m == 0xDD:
			n = 4
		case m == 0xCA || m == 0xD6 || m == 0xDA:
			n = 5
		case m == 0xD0:
			n = 2 + be(1)
		case m == 0xD1:
			n = 3 + be(2)
		case m == 0xD2:
			n = 5 + be(4)
		case m >= 0xB0 && m <= 0xBF:
			n = 2
		}
		if n > cs {
			bound += n - cs
		}
		if n > len(body) {
			break
		}
		body = body[n:]
	}
	return bound
}
