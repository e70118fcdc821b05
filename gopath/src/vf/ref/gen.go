package ref

import (
	"fmt"
	"math"
	"math/rand"
	"strings"

	"github.com/johnnadratowski/golang-neo4j-bolt-driver/structures/graph"
)

// Gen generates values.
type Gen struct {
	R *rand.Rand
	// Budget limits the number of elements per top-level value.
	Budget int
	// Graph allows graph structures.
	Graph bool
	// Raw allows strings that are not UTF-8.
	Raw bool
	// Small keeps strings and lists short.
	Small bool
}

// AllSmall makes every generator behave as if Small were set; it is changed
// only while nothing is being generated.
var AllSmall bool

// Edge integers around every width boundary.
func edgeInts() []int64 {
	var out []int64
	for _, b := range []int64{0, -16, -17, -128, -129, 127, 128, 255, 256, -32768, -32769, 32767, 32768, 65535, 65536,
		math.MinInt32, math.MaxInt32, math.MaxUint32, math.MinInt64, math.MaxInt64} {
		for d := int64(-2); d <= 2; d++ {
			s := b + d
			if (d > 0 && s < b) || (d < 0 && s > b) {
				continue
			}
			out = append(out, s)
		}
	}
	p10 := int64(1)
	for k := uint(0); k < 63; k++ {
		for d := int64(-1); d <= 1; d++ {
			out = append(out, int64(1)<<k+d, -(int64(1)<<k + d))
			if k < 19 {
				out = append(out, p10+d, -(p10 + d))
			}
		}
		p10 *= 10
	}
	return out
}

// EdgeInts are integers around every width boundary.
var EdgeInts = edgeInts()

// EdgeFloats are notable floats.
var EdgeFloats = []float64{0, math.Copysign(0, -1), 1, -1, 0.1, math.Inf(1), math.Inf(-1), math.NaN(), math.Float64frombits(0x7ff8000000000abc), math.Float64frombits(0xfff0000000000001),
	math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, math.MaxFloat32, math.SmallestNonzeroFloat32, 1 << 53, (1 << 53) + 2, math.Pi, 1e-310,
	1 << 31, -1 << 31, 1<<31 - 1, 1 << 32, 1<<32 - 1, 1 << 62, 1 << 63, -1 << 63, 1 << 64, 255, 256, 65535, 65536, 1e15, 1e16, 1e17, 1e18, 1e19, 1e21, 0.5, -0.5, 1.0 / 3, 16777216, 16777217,
	math.Float64frombits(0x000fffffffffffff), math.Float64frombits(0x0010000000000000), math.Float64frombits(0x3ff0000000000001), math.Float64frombits(0x0000c00100000000)}

// EdgeSizes are sizes around every header boundary.
var EdgeSizes = []int{0, 1, 2, 14, 15, 16, 17, 126, 127, 128, 129, 200, 254, 255, 256, 257, 1000, 32766, 32767, 32768, 32769, 40000, 65534, 65535, 65536, 65537, 70000}

// Int generates an integer biased to boundaries.
func (g *Gen) Int() int64 {
	switch g.R.Intn(4) {
	case 0:
		return EdgeInts[g.R.Intn(len(EdgeInts))]
	case 1:
		return int64(g.R.Intn(400) - 200)
	}
	return int64(g.R.Uint64()) >> uint(g.R.Intn(64))
}

// Float generates a float.
func (g *Gen) Float() float64 {
	if g.R.Intn(3) == 0 {
		return EdgeFloats[g.R.Intn(len(EdgeFloats))]
	}
	if g.R.Intn(2) == 0 {
		return math.Float64frombits(g.R.Uint64())
	}
	return g.R.NormFloat64()
}

var runes = []rune("abcXYZ 019_'\"\\\n\t\x00äßµ€漢字🙂𝄞ﷺ\u200d\u0301\u007f\u0080\u07ff\u0800\uffff\U00010000\U0010ffff")

// String of about n bytes (exactly n when ascii chosen).
func (g *Gen) String(n int) string {
	if n == 0 {
		return ""
	}
	b := make([]byte, 0, n+4)
	if g.Raw && g.R.Intn(3) == 0 {
		b = b[:n]
		g.R.Read(b)
		return string(b)
	}
	if g.R.Intn(2) == 0 {
		c := byte(g.R.Intn(128))
		for len(b) < n {
			b = append(b, c)
			c = byte((int(c) + 7) % 128)
		}
		return string(b[:n])
	}
	for len(b) < n {
		r := string(runes[g.R.Intn(len(runes))])
		if len(b)+len(r) > n {
			r = "x"
		}
		b = append(b, r...)
	}
	return string(b)
}

func (g *Gen) size() int {
	if g.Small || AllSmall {
		return g.R.Intn(20)
	}
	switch g.R.Intn(10) {
	case 0, 1, 2, 3, 4, 5:
		return g.R.Intn(4)
	case 6, 7:
		return 10 + g.R.Intn(12)
	case 8:
		return 120 + g.R.Intn(20)
	}
	return 250 + g.R.Intn(12)
}

// StringSize picks a string length.
func (g *Gen) StringSize() int {
	if g.Small || AllSmall {
		return g.R.Intn(30)
	}
	switch g.R.Intn(12) {
	case 0, 1, 2, 3, 4, 5, 6:
		return g.R.Intn(20)
	case 7, 8:
		return 100 + g.R.Intn(200)
	case 9:
		return 120 + g.R.Intn(20)
	case 10:
		return 250 + g.R.Intn(12)
	}
	return g.R.Intn(3000)
}

// looks are texts that look like something else.
var looks = []string{
	"2006-01-02T15:04:05Z", "2016-09-14T08:15:30.123456789+02:00", "2016-09-14", "15:04:05", "1h30m", "P1DT2H",
	"0", "1", "-1", "42", "9223372036854775807", "1.5", "1e10", "0x1F", "NaN", "Inf", "-0", "007",
	"true", "false", "TRUE", "t", "null", "NULL", "nil", "<nil>", "undefined",
	"{}", "[]", "{\"a\":1}", "[1,2]", "\"quoted\"", "'", "$1", "{a}", "?", ":x", "%s", "%d%!", "\\n", "\r\n", " ", "\t", " leading", "trailing ",
	"aGVsbG8=", "deadbeef", "550e8400-e29b-41d4-a716-446655440000", "bolt://a:b@c", "a,b;c", "BEGIN", "COMMIT", "ROLLBACK",
	"\ufeff", "\u0000", "\u2028", "ǅ", "ß", "I", "ı", "K",
}

// Text is a string that may look like something else.
func (g *Gen) Text() string {
	if g.R.Intn(6) == 0 {
		return looks[g.R.Intn(len(looks))]
	}
	return g.String(g.StringSize())
}

// keyNames are names that properties and parameters have in practice.
var keyNames = strings.Fields("id name Name NAME password passwd pass secret token apiKey user username email key value type labels _id __type k limit skip offset n nodes rels from to since at date timestamp created_at updatedAt p1 p2 param0 0 1 $ $id {id} :id bookmark mode db tx_timeout tx_metadata timeout")

// Key generates a map key.
func (g *Gen) Key() string {
	if g.R.Intn(12) == 0 {
		return keyNames[g.R.Intn(len(keyNames))]
	}
	if g.R.Intn(25) == 0 {
		return append(looks, "", "props", "fields", "stats", "code", "message", "principal", "credentials")[g.R.Intn(len(looks)+8)]
	}
	if g.R.Intn(8) == 0 {
		return g.String(g.StringSize())
	}
	return fmt.Sprintf("k%d", g.R.Intn(100000))
}

// GoValue generates a value acceptable to the encoder, using every accepted Go
// type.
func (g *Gen) GoValue(depth int) interface{} {
	if g.Budget <= 0 {
		return nil
	}
	g.Budget--
	k := g.R.Intn(30)
	if depth <= 0 && k >= 18 {
		k = g.R.Intn(18)
	}
	switch k {
	case 0:
		return nil
	case 1:
		return g.R.Intn(2) == 0
	case 2:
		return int(g.Int())
	case 3:
		return int8(g.Int())
	case 4:
		return int16(g.Int())
	case 5:
		return int32(g.Int())
	case 6, 7:
		return g.Int()
	case 8:
		return uint(g.Int() & math.MaxInt64)
	case 9:
		return uint8(g.Int())
	case 10:
		return uint16(g.Int())
	case 11:
		return uint32(g.Int())
	case 12:
		return uint64(g.Int() & math.MaxInt64)
	case 13:
		f := float32(g.Float())
		if f != f {
			f = 0.5
		}
		return f
	case 14, 15:
		return g.Float()
	case 16, 17:
		return g.Text()
	case 18, 19, 20:
		n := g.size()
		out := make([]interface{}, 0, n)
		for i := 0; i < n && g.Budget > 0; i++ {
			out = append(out, g.GoValue(depth-1))
		}
		return out
	case 21, 22, 23:
		n := g.size()
		out := make(map[string]interface{})
		for i := 0; i < n && g.Budget > 0; i++ {
			out[g.Key()] = g.GoValue(depth - 1)
		}
		return out
	case 24:
		return g.typedSlice()
	}
	if !g.Graph {
		return g.Int()
	}
	switch k {
	case 25, 26:
		return g.Node(depth - 1)
	case 27:
		return g.Rel(depth - 1)
	case 28:
		return g.Unbound(depth - 1)
	}
	return g.Path(depth - 1)
}

// Names is a named slice type.
type Names []string

func (g *Gen) typedSlice() interface{} {
	n := g.size()
	switch g.R.Intn(16) {
	case 7:
		out := make([]uint16, n)
		for i := range out {
			out[i] = uint16(g.Int())
		}
		return out
	case 8:
		out := make([]float32, n)
		for i := range out {
			out[i] = float32(g.R.NormFloat64())
		}
		return out
	case 9:
		out := make(Names, n)
		for i := range out {
			out[i] = g.label()
		}
		return out
	case 10:
		out := make([][]string, n%8)
		for i := range out {
			out[i] = []string{g.Text()}
		}
		return out
	case 11:
		out := make([][]interface{}, n%8)
		for i := range out {
			out[i] = []interface{}{g.Int(), nil, g.Text()}
		}
		return out
	case 12:
		return [...]interface{}{[]string(nil), []interface{}(nil), map[string]interface{}(nil), []byte(nil), Names(nil), []map[string]interface{}(nil)}[g.R.Intn(6)]
	case 13:
		out := make([]int8, n)
		for i := range out {
			out[i] = int8(g.Int())
		}
		return out
	case 14:
		if !g.Graph {
			return []bool{true, false}
		}
		out := make([]graph.Node, g.R.Intn(4))
		for i := range out {
			out[i] = g.Node(1)
		}
		return out
	case 15:
		out := make([]uint64, n)
		for i := range out {
			out[i] = uint64(g.Int() & math.MaxInt64)
		}
		return out
	case 0:
		out := make([]string, n)
		for i := range out {
			out[i] = g.String(g.R.Intn(5))
		}
		return out
	case 1:
		out := make([]int, n)
		for i := range out {
			out[i] = int(g.Int())
		}
		return out
	case 2:
		out := make([]byte, n)
		g.R.Read(out)
		return out
	case 3:
		out := make([]float64, n)
		for i := range out {
			out[i] = g.Float()
		}
		return out
	case 4:
		out := make([][]bool, n)
		for i := range out {
			out[i] = make([]bool, g.R.Intn(3))
		}
		return out
	case 5:
		out := make([]map[string]interface{}, n)
		for i := range out {
			out[i] = map[string]interface{}{"i": i}
		}
		return out
	}
	out := make([]int64, n)
	for i := range out {
		out[i] = g.Int()
	}
	return out
}

// Props generates a property map.
func (g *Gen) Props(depth int) map[string]interface{} {
	n := g.size()
	if n > 20 {
		n = 20
	}
	out := map[string]interface{}{}
	for i := 0; i < n && g.Budget > 0; i++ {
		out[g.Key()] = g.GoValue(depth - 1)
	}
	return out
}

// Node generates a node.
func (g *Gen) Node(depth int) graph.Node {
	n := graph.Node{NodeIdentity: g.Int(), Labels: []string{}, Properties: g.Props(depth)}
	for i := g.size(); i > 0; i-- {
		n.Labels = append(n.Labels, g.label())
	}
	return n
}

// Rel generates a relationship.
func (g *Gen) Rel(depth int) graph.Relationship {
	return graph.Relationship{RelIdentity: g.Int(), StartNodeIdentity: g.Int(), EndNodeIdentity: g.Int(), Type: g.Text(), Properties: g.Props(depth)}
}

// Unbound generates an unbound relationship.
func (g *Gen) Unbound(depth int) graph.UnboundRelationship {
	return graph.UnboundRelationship{RelIdentity: g.Int(), Type: g.Text(), Properties: g.Props(depth)}
}

// Path generates a path.
func (g *Gen) Path(depth int) graph.Path {
	p := graph.Path{Nodes: []graph.Node{}, Relationships: []graph.UnboundRelationship{}, Sequence: []int{}}
	for i := g.R.Intn(4); i > 0; i-- {
		p.Nodes = append(p.Nodes, g.Node(depth-1))
	}
	for i := g.R.Intn(4); i > 0; i-- {
		p.Relationships = append(p.Relationships, g.Unbound(depth-1))
	}
	for i := g.size(); i > 0; i-- {
		p.Sequence = append(p.Sequence, int(g.Int()))
	}
	return p
}

// WireValue generates a wire value directly.
func (g *Gen) WireValue(depth int) interface{} {
	w, err := Wire(g.GoValue(depth))
	if err != nil {
		panic(err)
	}
	return w
}

// SizedString is a string of n bytes.
func SizedString(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('a' + i%26)
	}
	return string(b)
}

// Sized builds notable values whose size is exactly n: strings, lists, maps.
func Sized(n int) []interface{} {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('a' + i%26)
	}
	l := make([]interface{}, n)
	for i := range l {
		l[i] = int64(i % 120)
	}
	m := make(map[string]interface{}, n)
	for i := 0; i < n; i++ {
		m[fmt.Sprintf("%x", i)] = int64(i % 100)
	}
	kinds := []interface{}{nil, true, false, "", "nil", int64(0), int64(-1), 0.0, 2.5, []interface{}{}, map[string]interface{}{}, []interface{}{nil}, map[string]interface{}{"": nil}}
	lm := make([]interface{}, n)
	mm := make(map[string]interface{}, n)
	for i := range lm {
		lm[i] = kinds[i%len(kinds)]
		mm[fmt.Sprintf("%d", i)] = kinds[i%len(kinds)]
	}
	return []interface{}{string(b), l, m, lm, mm}
}

func (g *Gen) label() string {
	if g.R.Intn(8) == 0 {
		return looks[g.R.Intn(len(looks))]
	}
	return g.String(g.R.Intn(20))
}
