package ref

import (
	"fmt"
	"math"
	"reflect"

	"github.com/johnnadratowski/golang-neo4j-bolt-driver/structures"
	"github.com/johnnadratowski/golang-neo4j-bolt-driver/structures/graph"
	"github.com/johnnadratowski/golang-neo4j-bolt-driver/structures/messages"
)

// Wire turns a Go value given to the driver into the wire value it must be
// encoded as, or reports that the value cannot be encoded.
func Wire(v interface{}) (interface{}, error) {
	switch x := v.(type) {
	case nil:
		return nil, nil
	case bool:
		return x, nil
	case int:
		return int64(x), nil
	case int8:
		return int64(x), nil
	case int16:
		return int64(x), nil
	case int32:
		return int64(x), nil
	case int64:
		return x, nil
	case uint:
		return wireUint(uint64(x))
	case uint8:
		return int64(x), nil
	case uint16:
		return int64(x), nil
	case uint32:
		return int64(x), nil
	case uint64:
		return wireUint(x)
	case float32:
		return float64(x), nil
	case float64:
		return x, nil
	case string:
		return x, nil
	case map[string]interface{}:
		out := Map{}
		for k, e := range x {
			w, err := Wire(e)
			if err != nil {
				return nil, err
			}
			out[k] = w
		}
		return out, nil
	case graph.Node:
		labels := List{}
		for _, l := range x.Labels {
			labels = append(labels, l)
		}
		return wireStruct(SigNode, x.NodeIdentity, labels, x.Properties)
	case graph.Relationship:
		return wireStruct(SigRel, x.RelIdentity, x.StartNodeIdentity, x.EndNodeIdentity, x.Type, x.Properties)
	case graph.UnboundRelationship:
		return wireStruct(SigUnbound, x.RelIdentity, x.Type, x.Properties)
	case graph.Path:
		ns, rs, sq := List{}, List{}, List{}
		for _, n := range x.Nodes {
			ns = append(ns, n)
		}
		for _, r := range x.Relationships {
			rs = append(rs, r)
		}
		for _, s := range x.Sequence {
			sq = append(sq, s)
		}
		return wireStruct(SigPath, ns, rs, sq)
	case structures.Structure:
		return wireStruct(byte(x.Signature()), x.AllFields()...)
	}
	rv := reflect.ValueOf(v)
	if rv.Kind() == reflect.Slice {
		out := make(List, rv.Len())
		for i := range out {
			w, err := Wire(rv.Index(i).Interface())
			if err != nil {
				return nil, err
			}
			out[i] = w
		}
		return out, nil
	}
	return nil, fmt.Errorf("not encodable: %T", v)
}

func wireUint(u uint64) (interface{}, error) {
	if u > math.MaxInt64 {
		return nil, fmt.Errorf("integer out of range: %d", u)
	}
	return int64(u), nil
}

func wireStruct(sig byte, fields ...interface{}) (interface{}, error) {
	s := Struct{Sig: sig}
	for _, f := range fields {
		w, err := Wire(f)
		if err != nil {
			return nil, err
		}
		s.Fields = append(s.Fields, w)
	}
	return s, nil
}

// Verdict of Expect.
type Verdict int

// Verdicts: what decoding must do with a wire value.
const (
	MustValue   Verdict = iota // must decode to the returned Go value
	MustError                  // must be refused
	Unspecified                // either is fine
)

// Expect gives the Go value the driver must decode a wire value to.
func Expect(w interface{}) (interface{}, Verdict) {
	switch x := w.(type) {
	case nil, bool, int64, float64, string:
		return x, MustValue
	case []interface{}:
		out := make([]interface{}, len(x))
		verdict := MustValue
		for i, e := range x {
			g, v := Expect(e)
			if v == MustError {
				return nil, MustError
			}
			if v == Unspecified {
				verdict = Unspecified
			}
			out[i] = g
		}
		return out, verdict
	case map[string]interface{}:
		out := make(map[string]interface{}, len(x))
		verdict := MustValue
		for k, e := range x {
			g, v := Expect(e)
			if v == MustError {
				return nil, MustError
			}
			if v == Unspecified {
				verdict = Unspecified
			}
			out[k] = g
		}
		return out, verdict
	case Struct:
		return expectStruct(x)
	}
	panic(fmt.Sprintf("ref.Expect: not a wire value %T", w))
}

func expectStruct(s Struct) (interface{}, Verdict) {
	verdict := MustValue
	f := make([]interface{}, len(s.Fields))
	for i, e := range s.Fields {
		g, v := Expect(e)
		if v == MustError {
			return nil, MustError
		}
		if v == Unspecified {
			verdict = Unspecified
		}
		f[i] = g
	}
	want := map[byte]int{SigNode: 3, SigRel: 5, SigUnbound: 3, SigPath: 3, SigSuccess: 1, SigFailure: 1, SigRecord: 1,
		SigIgnored: 0, SigAck: 0, SigDiscard: 0, SigPull: 0, SigReset: 0}
	n, known := want[s.Sig]
	if !known {
		if s.Sig == SigRun || s.Sig == SigInit {
			return nil, Unspecified // client messages: nobody sends them to a client
		}
		return nil, MustError
	}
	if len(f) != n {
		if n == 0 {
			return nil, Unspecified // extra fields, all of them present
		}
		return nil, MustError
	}
	bad := func() (interface{}, Verdict) {
		return nil, MustError
	}
	switch s.Sig {
	case SigNode:
		id, ok1 := f[0].(int64)
		ls, ok2 := f[1].([]interface{})
		ps, ok3 := f[2].(map[string]interface{})
		if !ok1 || !ok2 || !ok3 {
			return bad()
		}
		labels := make([]string, len(ls))
		for i, l := range ls {
			var ok bool
			if labels[i], ok = l.(string); !ok {
				return bad()
			}
		}
		return graph.Node{NodeIdentity: id, Labels: labels, Properties: ps}, verdict
	case SigRel:
		id, ok1 := f[0].(int64)
		a, ok2 := f[1].(int64)
		b, ok3 := f[2].(int64)
		ty, ok4 := f[3].(string)
		ps, ok5 := f[4].(map[string]interface{})
		if !ok1 || !ok2 || !ok3 || !ok4 || !ok5 {
			return bad()
		}
		return graph.Relationship{RelIdentity: id, StartNodeIdentity: a, EndNodeIdentity: b, Type: ty, Properties: ps}, verdict
	case SigUnbound:
		id, ok1 := f[0].(int64)
		ty, ok2 := f[1].(string)
		ps, ok3 := f[2].(map[string]interface{})
		if !ok1 || !ok2 || !ok3 {
			return bad()
		}
		return graph.UnboundRelationship{RelIdentity: id, Type: ty, Properties: ps}, verdict
	case SigPath:
		ns, ok1 := f[0].([]interface{})
		rs, ok2 := f[1].([]interface{})
		sq, ok3 := f[2].([]interface{})
		if !ok1 || !ok2 || !ok3 {
			return bad()
		}
		p := graph.Path{Nodes: []graph.Node{}, Relationships: []graph.UnboundRelationship{}, Sequence: []int{}}
		for _, n := range ns {
			x, ok := n.(graph.Node)
			if !ok {
				return bad()
			}
			p.Nodes = append(p.Nodes, x)
		}
		for _, n := range rs {
			x, ok := n.(graph.UnboundRelationship)
			if !ok {
				return bad()
			}
			p.Relationships = append(p.Relationships, x)
		}
		for _, n := range sq {
			x, ok := n.(int64)
			if !ok {
				return bad()
			}
			p.Sequence = append(p.Sequence, int(x))
		}
		return p, verdict
	case SigSuccess, SigFailure:
		m, ok := f[0].(map[string]interface{})
		if !ok {
			return bad()
		}
		if s.Sig == SigSuccess {
			return messages.NewSuccessMessage(m), verdict
		}
		return messages.NewFailureMessage(m), verdict
	case SigRecord:
		l, ok := f[0].([]interface{})
		if !ok {
			return bad()
		}
		return messages.NewRecordMessage(l), verdict
	case SigIgnored:
		return messages.NewIgnoredMessage(), verdict
	case SigAck:
		return messages.NewAckFailureMessage(), verdict
	case SigDiscard:
		return messages.NewDiscardAllMessage(), verdict
	case SigPull:
		return messages.NewPullAllMessage(), verdict
	case SigReset:
		return messages.NewResetMessage(), verdict
	}
	return nil, Unspecified
}

// Equal compares two Go values exactly (types included, floats bitwise, nil
// and empty containers alike). why describes the first difference.
func Equal(a, b interface{}) (bool, string) { return eq(a, b, "$") }

func eq(a, b interface{}, path string) (bool, string) {
	d := func() (bool, string) {
		return false, fmt.Sprintf("at %s: want %T %s, got %T %s", path, a, Short(a), b, Short(b))
	}
	switch x := a.(type) {
	case nil:
		if b == nil {
			return true, ""
		}
		return d()
	case float64:
		y, ok := b.(float64)
		if !ok || math.Float64bits(x) != math.Float64bits(y) {
			return d()
		}
		return true, ""
	case []interface{}:
		y, ok := b.([]interface{})
		if !ok || len(x) != len(y) {
			return d()
		}
		for i := range x {
			if ok, why := eq(x[i], y[i], fmt.Sprintf("%s[%d]", path, i)); !ok {
				return false, why
			}
		}
		return true, ""
	case map[string]interface{}:
		y, ok := b.(map[string]interface{})
		if !ok || len(x) != len(y) {
			return d()
		}
		for k := range x {
			yv, ok := y[k]
			if !ok {
				return false, fmt.Sprintf("at %s: key %q missing", path, k)
			}
			if ok, why := eq(x[k], yv, fmt.Sprintf("%s[%q]", path, k)); !ok {
				return false, why
			}
		}
		return true, ""
	case graph.Node:
		y, ok := b.(graph.Node)
		if !ok || x.NodeIdentity != y.NodeIdentity || !eqStrings(x.Labels, y.Labels) {
			return d()
		}
		return eq(x.Properties, y.Properties, path+".Properties")
	case graph.Relationship:
		y, ok := b.(graph.Relationship)
		if !ok || x.RelIdentity != y.RelIdentity || x.StartNodeIdentity != y.StartNodeIdentity || x.EndNodeIdentity != y.EndNodeIdentity || x.Type != y.Type {
			return d()
		}
		return eq(x.Properties, y.Properties, path+".Properties")
	case graph.UnboundRelationship:
		y, ok := b.(graph.UnboundRelationship)
		if !ok || x.RelIdentity != y.RelIdentity || x.Type != y.Type {
			return d()
		}
		return eq(x.Properties, y.Properties, path+".Properties")
	case graph.Path:
		y, ok := b.(graph.Path)
		if !ok || len(x.Nodes) != len(y.Nodes) || len(x.Relationships) != len(y.Relationships) || len(x.Sequence) != len(y.Sequence) {
			return d()
		}
		for i := range x.Nodes {
			if ok, why := eq(x.Nodes[i], y.Nodes[i], fmt.Sprintf("%s.Nodes[%d]", path, i)); !ok {
				return false, why
			}
		}
		for i := range x.Relationships {
			if ok, why := eq(x.Relationships[i], y.Relationships[i], fmt.Sprintf("%s.Relationships[%d]", path, i)); !ok {
				return false, why
			}
		}
		for i := range x.Sequence {
			if x.Sequence[i] != y.Sequence[i] {
				return false, fmt.Sprintf("at %s.Sequence[%d]: want %d got %d", path, i, x.Sequence[i], y.Sequence[i])
			}
		}
		return true, ""
	case Struct:
		y, ok := b.(Struct)
		if !ok || x.Sig != y.Sig || len(x.Fields) != len(y.Fields) {
			return d()
		}
		return eq(List(x.Fields), List(y.Fields), path+".Fields")
	case messages.SuccessMessage:
		y, ok := b.(messages.SuccessMessage)
		if !ok {
			return d()
		}
		return eq(x.Metadata, y.Metadata, path+".Metadata")
	case messages.FailureMessage:
		y, ok := b.(messages.FailureMessage)
		if !ok {
			return d()
		}
		return eq(x.Metadata, y.Metadata, path+".Metadata")
	case messages.RecordMessage:
		y, ok := b.(messages.RecordMessage)
		if !ok {
			return d()
		}
		return eq(x.Fields, y.Fields, path+".Fields")
	}
	if reflect.TypeOf(a) != reflect.TypeOf(b) || !reflect.DeepEqual(a, b) {
		return d()
	}
	return true, ""
}

func eqStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// Short prints a value briefly.
func Short(v interface{}) string {
	switch x := v.(type) {
	case string:
		if len(x) > 60 {
			return fmt.Sprintf("%q...(%d bytes)", x[:60], len(x))
		}
		return fmt.Sprintf("%q", x)
	case []interface{}:
		if len(x) > 8 {
			return fmt.Sprintf("list of %d", len(x))
		}
		s := "["
		for i, e := range x {
			if i > 0 {
				s += ", "
			}
			s += Short(e)
			if len(s) > 200 {
				return s + "..."
			}
		}
		return s + "]"
	case map[string]interface{}:
		if len(x) > 8 {
			return fmt.Sprintf("map of %d", len(x))
		}
		s := "{"
		for k, e := range x {
			s += Short(k) + ":" + Short(e) + " "
			if len(s) > 200 {
				return s + "..."
			}
		}
		return s + "}"
	case []byte:
		return Hex(x)
	}
	s := fmt.Sprintf("%+v", v)
	if len(s) > 200 {
		s = s[:200] + "..."
	}
	return s
}

// Hex prints bytes, shortened.
func Hex(b []byte) string {
	if len(b) > 48 {
		return fmt.Sprintf("% x ...(%d bytes)", b[:48], len(b))
	}
	return fmt.Sprintf("% x", b)
}
