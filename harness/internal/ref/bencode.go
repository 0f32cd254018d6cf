// Package ref holds independent reference models: a bencode codec, the peer wire
// codec and UDP tracker packets. Nothing here uses the code under test.
package ref

import (
	"bytes"
	"fmt"
	"math"
	"math/rand/v2"
	"sort"
	"strconv"
)

// Kind of a bencode value.
type Kind int

const (
	Int Kind = iota
	Str
	List
	Dict
)

// Val is a bencode value. Dictionary entries keep the order they are written in.
type Val struct {
	Kind Kind
	I    int64
	S    []byte
	L    []*Val
	Keys []string
	Vals []*Val
}

// I makes an integer.
func I(n int64) *Val { return &Val{Kind: Int, I: n} }

// S makes a string.
func S(s string) *Val { return &Val{Kind: Str, S: []byte(s)} }

// B makes a string from bytes.
func B(b []byte) *Val { return &Val{Kind: Str, S: b} }

// L makes a list.
func L(v ...*Val) *Val { return &Val{Kind: List, L: v} }

// D makes a dictionary from key, value, key, value...
func D(kv ...any) *Val {
	d := &Val{Kind: Dict}
	for i := 0; i < len(kv); i += 2 {
		d.Put(kv[i].(string), kv[i+1].(*Val))
	}
	return d
}

// Put appends an entry.
func (v *Val) Put(k string, x *Val) {
	v.Keys = append(v.Keys, k)
	v.Vals = append(v.Vals, x)
}

// Get returns the entry under k.
func (v *Val) Get(k string) *Val {
	for i, kk := range v.Keys {
		if kk == k {
			return v.Vals[i]
		}
	}
	return nil
}

// Encode writes the value with dictionary entries in their stored order.
func (v *Val) Encode() []byte { return v.enc(nil, false) }

// Canonical writes the value with keys in ascending byte order.
func (v *Val) Canonical() []byte { return v.enc(nil, true) }

func (v *Val) enc(b []byte, canon bool) []byte {
	switch v.Kind {
	case Int:
		b = append(b, 'i')
		b = strconv.AppendInt(b, v.I, 10)
		return append(b, 'e')
	case Str:
		b = strconv.AppendInt(b, int64(len(v.S)), 10)
		b = append(b, ':')
		return append(b, v.S...)
	case List:
		b = append(b, 'l')
		for _, x := range v.L {
			b = x.enc(b, canon)
		}
		return append(b, 'e')
	}
	b = append(b, 'd')
	idx := make([]int, len(v.Keys))
	for i := range idx {
		idx[i] = i
	}
	if canon {
		sort.Slice(idx, func(a, c int) bool { return v.Keys[idx[a]] < v.Keys[idx[c]] })
	}
	for _, i := range idx {
		b = strconv.AppendInt(b, int64(len(v.Keys[i])), 10)
		b = append(b, ':')
		b = append(b, v.Keys[i]...)
		b = v.Vals[i].enc(b, canon)
	}
	return append(b, 'e')
}

// Depth of nesting.
func (v *Val) Depth() int {
	d := 0
	for _, x := range v.L {
		d = max(d, x.Depth())
	}
	for _, x := range v.Vals {
		d = max(d, x.Depth())
	}
	return d + 1
}

func (v *Val) String() string {
	s := fmt.Sprintf("%q", v.Encode())
	if len(s) > 200 {
		s = s[:200] + "..."
	}
	return s
}

// Outcome of reading a byte string as bencode.
type Outcome int

const (
	Valid     Outcome = iota
	Truncated         // the input ends inside an element
	Overflow          // a number or length does not fit 64 bits, or a length exceeds the input
	Malformed         // anything else
)

// Parse reads one value strictly and returns how many bytes it takes.
func Parse(b []byte) (*Val, int, Outcome) {
	p := &parser{b: b}
	v, o := p.value(0)
	return v, p.i, o
}

type parser struct {
	b []byte
	i int
}

// number reads a non-negative canonical number up to max.
func (p *parser) number(max uint64) (uint64, Outcome) {
	start := p.i
	for p.i < len(p.b) && p.b[p.i] >= '0' && p.b[p.i] <= '9' {
		p.i++
	}
	if p.i == start {
		if p.i == len(p.b) {
			return 0, Truncated
		}
		return 0, Malformed
	}
	digits := string(p.b[start:p.i])
	if len(digits) > 1 && digits[0] == '0' {
		return 0, Malformed
	}
	n, err := strconv.ParseUint(digits, 10, 64)
	if err != nil || n > max {
		if p.i == len(p.b) {
			return 0, Truncated
		}
		return 0, Overflow
	}
	return n, Valid
}

func (p *parser) str() (string, Outcome) {
	n, o := p.number(math.MaxInt64)
	if o != Valid {
		return "", o
	}
	if p.i == len(p.b) {
		return "", Truncated
	}
	if p.b[p.i] != ':' {
		return "", Malformed
	}
	p.i++
	if n > uint64(len(p.b)-p.i) {
		return "", Truncated
	}
	s := string(p.b[p.i : p.i+int(n)])
	p.i += int(n)
	return s, Valid
}

func (p *parser) value(depth int) (*Val, Outcome) {
	if depth > 1000 {
		return nil, Malformed
	}
	if p.i == len(p.b) {
		return nil, Truncated
	}
	switch c := p.b[p.i]; {
	case c == 'i':
		p.i++
		neg := p.i < len(p.b) && p.b[p.i] == '-'
		lim := uint64(math.MaxInt64)
		if neg {
			p.i++
			lim++
		}
		n, o := p.number(lim)
		if o != Valid {
			return nil, o
		}
		if neg && n == 0 {
			return nil, Malformed
		}
		if p.i == len(p.b) {
			return nil, Truncated
		}
		if p.b[p.i] != 'e' {
			return nil, Malformed
		}
		p.i++
		if neg {
			return I(int64(-n)), Valid
		}
		return I(int64(n)), Valid
	case c >= '0' && c <= '9':
		s, o := p.str()
		return S(s), o
	case c == 'l':
		p.i++
		v := L()
		for {
			if p.i == len(p.b) {
				return nil, Truncated
			}
			if p.b[p.i] == 'e' {
				p.i++
				return v, Valid
			}
			x, o := p.value(depth + 1)
			if o != Valid {
				return nil, o
			}
			v.L = append(v.L, x)
		}
	case c == 'd':
		p.i++
		v := D()
		seen := map[string]bool{}
		for {
			if p.i == len(p.b) {
				return nil, Truncated
			}
			if p.b[p.i] == 'e' {
				p.i++
				return v, Valid
			}
			k, o := p.str()
			if o != Valid {
				return nil, o
			}
			if seen[k] {
				return nil, Malformed
			}
			seen[k] = true
			x, o := p.value(depth + 1)
			if o != Valid {
				return nil, o
			}
			v.Put(k, x)
		}
	}
	return nil, Malformed
}

var boundary = []int64{0, 1, -1, 9, 10, 127, 128, 255, 256, -128, -129, 32767, 32768, 65535, 65536,
	math.MaxInt32, math.MaxInt32 + 1, math.MinInt32, math.MinInt32 - 1, math.MaxUint32, math.MaxUint32 + 1,
	math.MaxInt64, math.MaxInt64 - 1, math.MinInt64, math.MinInt64 + 1, 922337203685477580, 1 << 53}

// RandInt returns an integer biased to boundaries.
func RandInt(r *rand.Rand) int64 {
	switch r.IntN(4) {
	case 0:
		return boundary[r.IntN(len(boundary))]
	case 1:
		return int64(r.IntN(2000)) - 1000
	case 2:
		return int64(r.Uint64()) >> r.IntN(64)
	}
	return int64(r.Uint64())
}

// RandBytes returns a string of bytes, often hostile to parsers.
func RandBytes(r *rand.Rand, maxLen int) []byte {
	n := r.IntN(maxLen + 1)
	if r.IntN(4) == 0 {
		n = r.IntN(4)
	}
	b := make([]byte, n)
	alphabet := "ildei0123456789:-\x00\xff\x80aé"
	mode := r.IntN(3)
	for i := range b {
		switch mode {
		case 0:
			b[i] = byte(r.UintN(256))
		case 1:
			b[i] = alphabet[r.IntN(len(alphabet))]
		default:
			b[i] = byte('a' + r.IntN(26))
		}
	}
	return b
}

// RandVal makes a value with at most about size nodes.
func RandVal(r *rand.Rand, depth, size int) *Val {
	k := r.IntN(10)
	if depth <= 0 || size <= 1 {
		k = r.IntN(5)
	}
	switch {
	case k < 2:
		return I(RandInt(r))
	case k < 5:
		return B(RandBytes(r, 40))
	case k < 7:
		v := L()
		for n := r.IntN(6); n > 0 && size > 0; n-- {
			v.L = append(v.L, RandVal(r, depth-1, size/2))
			size--
		}
		return v
	}
	return RandDict(r, depth, size, r.IntN(8))
}

// RandDict makes a dictionary with n entries whose keys share prefixes, differ in
// case, length and high bytes.
func RandDict(r *rand.Rand, depth, size, n int) *Val {
	v := D()
	seen := map[string]bool{}
	for ; n > 0; n-- {
		var k string
		switch r.IntN(5) {
		case 0:
			k = string(RandBytes(r, 6))
		case 1:
			k = string(bytes.Repeat([]byte{"aAzZé"[r.IntN(6)]}, r.IntN(12)))
		case 2:
			k = strconv.Itoa(r.IntN(2000))
		case 3:
			k = []string{"info", "info ", "inf", "Info", "announce", "pieces", "piece length", "length", "name", "path", "files", "peers", "ip", "port", "interval"}[r.IntN(15)]
		default:
			k = string([]byte{byte(r.UintN(256))}) + string(RandBytes(r, 2))
		}
		if seen[k] {
			continue
		}
		seen[k] = true
		v.Put(k, RandVal(r, depth-1, size/2))
	}
	return v
}

// Shuffle returns the value with dictionary entries in random order.
func (v *Val) Shuffle(r *rand.Rand) *Val {
	c := &Val{Kind: v.Kind, I: v.I, S: v.S}
	for _, x := range v.L {
		c.L = append(c.L, x.Shuffle(r))
	}
	for _, i := range r.Perm(len(v.Keys)) {
		c.Put(v.Keys[i], v.Vals[i].Shuffle(r))
	}
	return c
}
