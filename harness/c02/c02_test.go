package c02

import (
	"fmt"
	"testing"

	"github.com/anivanovic/gotit/pkg/bencode"

	"verif/internal/match"
	"verif/internal/mon"
	"verif/internal/ref"
)

func Test(t *testing.T) {
	mon.Main(t, "C02",
		mon.Family{Name: "built", Quick: 4800, Thorough: 48000, Fn: built},
		mon.Family{Name: "decoded", Quick: 2400, Thorough: 24000, Fn: decoded},
		mon.Family{Name: "wide", Quick: 192, Thorough: 1920, Fn: wide},
	)
}

// build makes the value with the exported builders.
func build(v *ref.Val) bencode.Bencode {
	switch v.Kind {
	case ref.Int:
		return bencode.Integer(int(v.I))
	case ref.Str:
		return bencode.String(string(v.S))
	case ref.List:
		items := make([]bencode.Bencode, 0, len(v.L))
		for _, x := range v.L {
			items = append(items, build(x))
		}
		return bencode.List(items...)
	}
	b := bencode.NewDictBuilder()
	for i, k := range v.Keys {
		b = b.Add(k, build(v.Vals[i]))
	}
	return b.Generate()
}

func encode(c *mon.Case, b bencode.Bencode, v *ref.Val) string {
	var s string
	c.Call(fmt.Sprintf("encode %v", v), func() { s = b.Encode() })
	c.Eval(1)
	return s
}

// roundTrip checks one value made in any way.
func roundTrip(c *mon.Case, b bencode.Bencode, v *ref.Val) {
	want := string(v.Canonical())
	for i := 0; i < 3; i++ {
		got := encode(c, b, v)
		c.Check(got == want, "value %v encoded as %.300q, canonical form is %.300q (attempt %d)", v, got, want, i)
	}
	var back bencode.Bencode
	var err error
	c.Call("decode", func() { back, err = bencode.Parse([]byte(want)) })
	c.Check(err == nil, "encoding %.300q is refused: %v", want, err)
	if err := match.Value(back, v, false); err != nil {
		c.Fail("encoding %.300q decodes to another value: %v", want, err)
	}
	again := encode(c, back, v)
	c.Check(again == want, "re-encoding %.300q gives %.300q", want, again)
	c.Count("round_trips", 1)
	if v.Kind == ref.Dict && len(v.Keys) > 1 {
		c.Count("dictionaries_with_several_keys", 1)
	}
	c.Distinct(want)
}

func built(c *mon.Case) {
	for i := 0; i < 25; i++ {
		v := ref.RandVal(c.R, 2+c.R.IntN(5), 50).Shuffle(c.R)
		if c.R.IntN(2) == 0 {
			v = ref.RandDict(c.R, 3, 40, 2+c.R.IntN(12)).Shuffle(c.R)
		}
		c.Sample("value %v", v)
		roundTrip(c, build(v), v)
	}
}

func decoded(c *mon.Case) {
	for i := 0; i < 25; i++ {
		v := ref.RandVal(c.R, 2+c.R.IntN(5), 50).Shuffle(c.R)
		var b bencode.Bencode
		var err error
		c.Call("decode", func() { b, err = bencode.Parse(v.Encode()) })
		c.Check(err == nil, "document %v refused: %v", v, err)
		roundTrip(c, b, v)
	}
}

func wide(c *mon.Case) {
	v := ref.RandDict(c.R, 1, 4, 400).Shuffle(c.R)
	roundTrip(c, build(v), v)
	l := ref.L()
	for i := 0; i < 500; i++ {
		l.L = append(l.L, ref.I(ref.RandInt(c.R)), ref.B(ref.RandBytes(c.R, 300)))
	}
	roundTrip(c, build(l), l)
	if c.R.IntN(8) == 0 {
		// thousands of elements
		big := ref.L()
		for i := 1000 + c.R.IntN(5000); i > 0; i-- {
			big.L = append(big.L, ref.I(int64(i)))
		}
		roundTrip(c, build(big), big)
		many := ref.D()
		for _, i := range c.R.Perm(1000 + c.R.IntN(4000)) {
			many.Keys = append(many.Keys, fmt.Sprint(i))
			many.Vals = append(many.Vals, ref.I(int64(i)))
		}
		roundTrip(c, build(many), many)
		long := make([]byte, 1<<20+c.R.IntN(1<<20))
		for i := range long {
			long[i] = byte(c.R.Uint32())
		}
		v := ref.D("long", ref.B(long))
		roundTrip(c, build(v), v)
	}
	// the same pairs added in another order encode the same
	w := v.Shuffle(c.R)
	c.Check(encode(c, build(v), v) == encode(c, build(w), w), "encoding depends on the order of Add calls: %v", v)
}
