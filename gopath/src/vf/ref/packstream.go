// Package ref is an independent PackStream v1 reader/writer with Bolt chunk
// framing. It shares no code with the driver under test and acts as the oracle
// of what bytes mean.
package ref

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"math/rand"
	"sort"
	"unicode/utf8"
)

// Struct is a PackStream structure.
type Struct struct {
	Sig    byte
	Fields []interface{}
}

// Message and graph signatures.
const (
	SigInit    = 0x01
	SigAck     = 0x0E
	SigReset   = 0x0F
	SigRun     = 0x10
	SigDiscard = 0x2F
	SigPull    = 0x3F
	SigSuccess = 0x70
	SigRecord  = 0x71
	SigIgnored = 0x7E
	SigFailure = 0x7F
	SigNode    = 0x4E
	SigRel     = 0x52
	SigUnbound = 0x72
	SigPath    = 0x50
)

// Map is an alias for the map type used on the wire side.
type Map = map[string]interface{}

// List is an alias for the list type.
type List = []interface{}

// Enc encodes wire values. If R is set, integers and size headers are given a
// random permitted width at least as wide as needed.
type Enc struct {
	R *rand.Rand
	// Wide forces the widest permitted form.
	Wide bool
}

func (e Enc) pick(min, max int) int {
	if e.Wide {
		return max
	}
	if e.R == nil || max <= min {
		return min
	}
	return min + e.R.Intn(max-min+1)
}

// Append appends the encoding of v (a wire value: nil, bool, int64, float64,
// string, List, Map, Struct).
func (e Enc) Append(b []byte, v interface{}) []byte {
	switch x := v.(type) {
	case nil:
		return append(b, 0xC0)
	case bool:
		if x {
			return append(b, 0xC3)
		}
		return append(b, 0xC2)
	case int:
		return e.appendInt(b, int64(x))
	case int64:
		return e.appendInt(b, x)
	case float64:
		b = append(b, 0xC1)
		return binary.BigEndian.AppendUint64(b, math.Float64bits(x))
	case string:
		b = e.header(b, len(x), 0x80, 0xD0, 4)
		return append(b, x...)
	case []interface{}:
		b = e.header(b, len(x), 0x90, 0xD4, 4)
		for _, it := range x {
			b = e.Append(b, it)
		}
		return b
	case map[string]interface{}:
		b = e.header(b, len(x), 0xA0, 0xD8, 4)
		keys := make([]string, 0, len(x))
		for k := range x {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		if e.R != nil {
			e.R.Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
		}
		for _, k := range keys {
			b = e.Append(b, k)
			b = e.Append(b, x[k])
		}
		return b
	case Struct:
		b = e.header(b, len(x.Fields), 0xB0, 0xDC, 2)
		b = append(b, x.Sig)
		for _, f := range x.Fields {
			b = e.Append(b, f)
		}
		return b
	}
	panic(fmt.Sprintf("ref.Append: not a wire value: %T", v))
}

// header classes: 0 tiny (n<=15), 1 8-bit, 2 16-bit, 3 32-bit. maxBytes is 4 or 2.
func (e Enc) header(b []byte, n int, tiny, base byte, maxBytes int) []byte {
	min := 3
	switch {
	case n <= 15:
		min = 0
	case n <= 0xFF:
		min = 1
	case n <= 0xFFFF:
		min = 2
	}
	max := 3
	if maxBytes == 2 {
		max = 2
	}
	switch e.pick(min, max) {
	case 0:
		return append(b, tiny+byte(n))
	case 1:
		return append(b, base, byte(n))
	case 2:
		b = append(b, base+1)
		return binary.BigEndian.AppendUint16(b, uint16(n))
	default:
		b = append(b, base+2)
		return binary.BigEndian.AppendUint32(b, uint32(n))
	}
}

func intClass(v int64) int {
	switch {
	case v >= -16 && v <= 127:
		return 0
	case v >= math.MinInt8 && v <= math.MaxInt8:
		return 1
	case v >= math.MinInt16 && v <= math.MaxInt16:
		return 2
	case v >= math.MinInt32 && v <= math.MaxInt32:
		return 3
	}
	return 4
}

func (e Enc) appendInt(b []byte, v int64) []byte {
	switch e.pick(intClass(v), 4) {
	case 0:
		return append(b, byte(v))
	case 1:
		return append(b, 0xC8, byte(v))
	case 2:
		return binary.BigEndian.AppendUint16(append(b, 0xC9), uint16(v))
	case 3:
		return binary.BigEndian.AppendUint32(append(b, 0xCA), uint32(v))
	}
	return binary.BigEndian.AppendUint64(append(b, 0xCB), uint64(v))
}

// Encode gives the shortest encoding.
func Encode(v interface{}) []byte { return Enc{}.Append(nil, v) }

// Reading -----------------------------------------------------------------

// Errors of the reader.
var (
	ErrShort   = errors.New("ref: truncated")
	ErrMarker  = errors.New("ref: unknown marker")
	ErrKey     = errors.New("ref: map key is not a string")
	ErrTooDeep = errors.New("ref: too deep")
)

// Info tells what was seen while reading.
type Info struct {
	NonMinimal string // first non-minimal header, "" if none
	DupKey     bool
	BadUTF8    bool
	Depth      int
}

type reader struct {
	b    []byte
	p    int
	info *Info
}

// MaxDepth limits the reader.
const MaxDepth = 200000

// Read reads one value from b and returns it with the number of bytes used.
func Read(b []byte) (v interface{}, n int, info Info, err error) {
	r := &reader{b: b, info: &info}
	v, err = r.value(0)
	return v, r.p, info, err
}

// ReadAll reads exactly one value.
func ReadAll(b []byte) (interface{}, Info, error) {
	v, n, info, err := Read(b)
	if err == nil && n != len(b) {
		err = fmt.Errorf("ref: %d trailing bytes", len(b)-n)
	}
	return v, info, err
}

func (r *reader) take(n int) ([]byte, error) {
	if n < 0 || len(r.b)-r.p < n {
		return nil, ErrShort
	}
	s := r.b[r.p : r.p+n]
	r.p += n
	return s, nil
}

func (r *reader) nonMin(f string, a ...interface{}) {
	if r.info.NonMinimal == "" {
		r.info.NonMinimal = fmt.Sprintf(f, a...)
	}
}

func (r *reader) size(kind string, cls byte) (int, error) {
	switch cls {
	case 0:
		s, err := r.take(1)
		if err != nil {
			return 0, err
		}
		n := int(s[0])
		if n <= 15 {
			r.nonMin("%s size %d in 8 bits", kind, n)
		}
		return n, nil
	case 1:
		s, err := r.take(2)
		if err != nil {
			return 0, err
		}
		n := int(binary.BigEndian.Uint16(s))
		if n <= 0xFF {
			r.nonMin("%s size %d in 16 bits", kind, n)
		}
		return n, nil
	}
	s, err := r.take(4)
	if err != nil {
		return 0, err
	}
	n := int(binary.BigEndian.Uint32(s))
	if n <= 0xFFFF {
		r.nonMin("%s size %d in 32 bits", kind, n)
	}
	return n, nil
}

func (r *reader) value(depth int) (interface{}, error) {
	if depth > MaxDepth {
		return nil, ErrTooDeep
	}
	if depth > r.info.Depth {
		r.info.Depth = depth
	}
	mk, err := r.take(1)
	if err != nil {
		return nil, err
	}
	m := mk[0]
	switch {
	case m <= 0x7F || m >= 0xF0:
		return int64(int8(m)), nil
	case m&0xF0 == 0x80:
		return r.str(int(m & 0x0F))
	case m&0xF0 == 0x90:
		return r.list(int(m&0x0F), depth)
	case m&0xF0 == 0xA0:
		return r.mapp(int(m&0x0F), depth)
	case m&0xF0 == 0xB0:
		return r.strukt(int(m&0x0F), depth)
	}
	switch m {
	case 0xC0:
		return nil, nil
	case 0xC2:
		return false, nil
	case 0xC3:
		return true, nil
	case 0xC1:
		s, err := r.take(8)
		if err != nil {
			return nil, err
		}
		return math.Float64frombits(binary.BigEndian.Uint64(s)), nil
	case 0xC8, 0xC9, 0xCA, 0xCB:
		w := 1 << (m - 0xC8)
		s, err := r.take(w)
		if err != nil {
			return nil, err
		}
		var v int64
		switch w {
		case 1:
			v = int64(int8(s[0]))
		case 2:
			v = int64(int16(binary.BigEndian.Uint16(s)))
		case 4:
			v = int64(int32(binary.BigEndian.Uint32(s)))
		case 8:
			v = int64(binary.BigEndian.Uint64(s))
		}
		if c := intClass(v); c < int(m-0xC8)+1 {
			r.nonMin("int %d in %d bytes", v, w)
		}
		return v, nil
	case 0xD0, 0xD1, 0xD2:
		n, err := r.size("string", m-0xD0)
		if err != nil {
			return nil, err
		}
		return r.str(n)
	case 0xD4, 0xD5, 0xD6:
		n, err := r.size("list", m-0xD4)
		if err != nil {
			return nil, err
		}
		return r.list(n, depth)
	case 0xD8, 0xD9, 0xDA:
		n, err := r.size("map", m-0xD8)
		if err != nil {
			return nil, err
		}
		return r.mapp(n, depth)
	case 0xDC, 0xDD:
		n, err := r.size("struct", m-0xDC)
		if err != nil {
			return nil, err
		}
		return r.strukt(n, depth)
	}
	return nil, ErrMarker
}

func (r *reader) str(n int) (interface{}, error) {
	s, err := r.take(n)
	if err != nil {
		return nil, err
	}
	if !utf8.Valid(s) {
		r.info.BadUTF8 = true
	}
	return string(s), nil
}

func (r *reader) list(n, depth int) (interface{}, error) {
	c := n
	if c > len(r.b)-r.p {
		c = len(r.b) - r.p
	}
	out := make([]interface{}, 0, c)
	for i := 0; i < n; i++ {
		v, err := r.value(depth + 1)
		if err != nil {
			return nil, err
		}
		out = append(out, v)
	}
	return out, nil
}

func (r *reader) mapp(n, depth int) (interface{}, error) {
	out := map[string]interface{}{}
	for i := 0; i < n; i++ {
		k, err := r.value(depth + 1)
		if err != nil {
			return nil, err
		}
		ks, ok := k.(string)
		if !ok {
			return nil, ErrKey
		}
		v, err := r.value(depth + 1)
		if err != nil {
			return nil, err
		}
		if _, dup := out[ks]; dup {
			r.info.DupKey = true
		}
		out[ks] = v
	}
	return out, nil
}

func (r *reader) strukt(n, depth int) (interface{}, error) {
	s, err := r.take(1)
	if err != nil {
		return nil, err
	}
	out := Struct{Sig: s[0]}
	for i := 0; i < n; i++ {
		v, err := r.value(depth + 1)
		if err != nil {
			return nil, err
		}
		out.Fields = append(out.Fields, v)
	}
	return out, nil
}

// Framing -----------------------------------------------------------------

// Frame cuts msg into chunks whose sizes next returns (clamped to 1..65535 and
// what remains) and appends the end marker.
func Frame(b []byte, msg []byte, next func(remaining int) int) []byte {
	for len(msg) > 0 {
		n := len(msg)
		if next != nil {
			n = next(len(msg))
		}
		if n < 1 {
			n = 1
		}
		if n > 65535 {
			n = 65535
		}
		if n > len(msg) {
			n = len(msg)
		}
		b = binary.BigEndian.AppendUint16(b, uint16(n))
		b = append(b, msg[:n]...)
		msg = msg[n:]
	}
	return append(b, 0, 0)
}

// Unframer reassembles messages from bytes fed to it.
type Unframer struct {
	buf     []byte
	cur     []byte
	Sizes   []int // chunk sizes of the message being read
	started bool
}

// Msg is one unframed message.
type Msg struct {
	Body  []byte
	Sizes []int
	Wire  int // bytes on the wire including headers
}

// Feed adds bytes and returns the messages completed by them.
func (u *Unframer) Feed(p []byte) []Msg {
	u.buf = append(u.buf, p...)
	var out []Msg
	for {
		if len(u.buf) < 2 {
			return out
		}
		n := int(binary.BigEndian.Uint16(u.buf))
		if n == 0 {
			w := 2
			for _, s := range u.Sizes {
				w += 2 + s
			}
			out = append(out, Msg{Body: u.cur, Sizes: u.Sizes, Wire: w})
			u.cur, u.Sizes = nil, nil
			u.buf = u.buf[2:]
			continue
		}
		if len(u.buf) < 2+n {
			return out
		}
		u.cur = append(u.cur, u.buf[2:2+n]...)
		u.Sizes = append(u.Sizes, n)
		u.buf = u.buf[2+n:]
	}
}

// Pending tells whether a message is partially received.
func (u *Unframer) Pending() bool { return len(u.buf) > 0 || len(u.Sizes) > 0 }
