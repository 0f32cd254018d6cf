package c01

import (
	"bytes"
	"fmt"
	"strings"
	"sync"
	"testing"

	"github.com/anivanovic/gotit/pkg/bencode"

	"verif/internal/match"
	"verif/internal/mon"
	"verif/internal/ref"
)

func Test(t *testing.T) {
	mon.Main(t, "C01",
		mon.Family{Name: "boundary", Quick: 1, Thorough: 1, Fn: boundary},
		mon.Family{Name: "nesting", Quick: 192, Thorough: 1920, Fn: nesting},
		mon.Family{Name: "documents", Quick: 3200, Thorough: 32000, Fn: documents},
		mon.Family{Name: "mutations", Quick: 3200, Thorough: 32000, Fn: mutations},
		mon.Family{Name: "garbage", Quick: 1600, Thorough: 16000, Fn: garbage},
		mon.Family{Name: "wide", Quick: 48, Thorough: 480, Fn: wide},
		mon.Family{Name: "concurrent", Quick: 480, Thorough: 4800, Fn: concurrent},
	)
}

func decode(c *mon.Case, data []byte) (v bencode.Bencode, err error) {
	in := append([]byte(nil), data...)
	c.Call(fmt.Sprintf("decode %.300q", data), func() {
		v, err = bencode.Parse(in)
	})
	c.Eval(1)
	c.Check(err != nil || v != nil, "decode %.300q: neither value nor error", data)
	c.Check(bytes.Equal(in, data), "decode changed its input %.300q", data)
	return v, err
}

func mustDecode(c *mon.Case, v *ref.Val) bencode.Bencode {
	data := v.Encode()
	got, err := decode(c, data)
	c.Check(err == nil, "well-formed document %.300q refused: %v", data, err)
	if err := match.Value(got, v, true); err != nil {
		c.Fail("document %.300q decoded wrongly: %v", data, err)
	}
	c.Count("well_formed_decoded", 1)
	return got
}

func mustRefuse(c *mon.Case, data []byte, why string) {
	v, err := decode(c, data)
	c.Check(err != nil, "%s %.300q accepted as %v", why, data, v)
	c.Count("refused_"+strings.ReplaceAll(why, " ", "_"), 1)
}

func documents(c *mon.Case) {
	for i := 0; i < 20; i++ {
		v := ref.RandVal(c.R, 2+c.R.IntN(6), 60)
		if c.R.IntN(3) > 0 {
			v = v.Shuffle(c.R)
		}
		mustDecode(c, v)
		data := v.Encode()
		c.Distinct(data)
		c.Sample("document %q", data)

		// a decoded document inside another keeps its value and bytes
		mustDecode(c, ref.L(v, ref.D("k", v), v))

		// every truncation is refused
		step := 1 + len(data)/150
		for n := 0; n < len(data); n += step {
			mustRefuse(c, data[:n], "truncated document")
		}
		if len(data) > 1 {
			mustRefuse(c, data[:len(data)-1], "truncated document")
		}
	}
}

// judge compares the decoder with the reference on arbitrary bytes.
func judge(c *mon.Case, data []byte) {
	v, n, outcome := ref.Parse(data)
	got, err := decode(c, data)
	switch outcome {
	case ref.Valid:
		if n != len(data) {
			c.Count("trailing_bytes", 1)
			return
		}
		c.Check(err == nil, "well-formed document %.300q refused: %v", data, err)
		if err := match.Value(got, v, true); err != nil {
			c.Fail("document %.300q decoded wrongly: %v", data, err)
		}
		c.Count("arbitrary_well_formed", 1)
		c.Distinct(data)
	case ref.Truncated:
		c.Check(err != nil, "truncated document %.300q accepted as %v", data, got)
		c.Count("arbitrary_truncated", 1)
		c.Distinct(data)
	case ref.Overflow:
		c.Check(err != nil, "number out of range in %.300q accepted as %v", data, got)
		c.Count("arbitrary_overflow", 1)
		c.Distinct(data)
	default:
		c.Count("arbitrary_malformed", 1)
	}
}

func mutations(c *mon.Case) {
	for i := 0; i < 20; i++ {
		data := ref.RandVal(c.R, 2+c.R.IntN(4), 40).Encode()
		for j := 0; j < 15; j++ {
			m := append([]byte(nil), data...)
			for k := 1 + c.R.IntN(3); k > 0 && len(m) > 0; k-- {
				p := c.R.IntN(len(m))
				switch c.R.IntN(6) {
				case 0:
					m[p] = byte(c.R.UintN(256))
				case 1:
					m[p] = "ildei0123456789:-"[c.R.IntN(17)]
				case 2:
					m = append(m[:p], m[p+1:]...)
				case 3:
					m = append(m[:p], append([]byte{"ildei0123456789:-"[c.R.IntN(17)]}, m[p:]...)...)
				case 4:
					m = append(m[:p:p], append([]byte("99999999999999999999"[:1+c.R.IntN(20)]), m[p:]...)...)
				default:
					q := c.R.IntN(len(m))
					m[p], m[q] = m[q], m[p]
				}
			}
			judge(c, m)
		}
	}
}

func garbage(c *mon.Case) {
	for i := 0; i < 200; i++ {
		judge(c, ref.RandBytes(c.R, 30))
	}
}

func boundary(c *mon.Case) {
	contexts := []string{"%s", "l%se", "d1:a%se", "ld1:b%see", "d1:al%se1:c%se", "li5e%s1:xe"}
	fill := func(ctx, x string) []byte { return []byte(strings.ReplaceAll(ctx, "%s", x)) }
	for _, ctx := range contexts {
		for _, n := range []string{"9223372036854775807", "-9223372036854775808", "9223372036854775800", "0", "-1",
			"999999999999999999", "1000000000000000000", "922337203685477580", "4294967296", "-4294967297", "2147483648"} {
			data := fill(ctx, "i"+n+"e")
			v, used, o := ref.Parse(data)
			if o != ref.Valid || used != len(data) {
				c.Harness("reference refuses %q", data)
			}
			mustDecode(c, v)
			c.Distinct(data)
		}
		for _, n := range []string{"9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616",
			"18446744073709551617", "-18446744073709551616", "92233720368547758070", "99999999999999999999", "-99999999999999999999999",
			"36893488147419103233", strings.Repeat("9", 400), "1" + strings.Repeat("0", 64)} {
			mustRefuse(c, fill(ctx, "i"+n+"e"), "number out of range")
			c.Distinct(ctx, n)
		}
		for _, n := range []string{"9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "18446744073709551619",
			"4294967299", "36893488147419103235", "99999999999999999999", "1000000", "5", strings.Repeat("9", 300)} {
			mustRefuse(c, fill(ctx, n+":abc"), "string longer than the document")
			mustRefuse(c, fill("d%se", n+":abci1e"), "string longer than the document")
			c.Distinct(ctx, n, "len")
		}
		for _, s := range []string{"", "i", "i-", "i5", "i-5", "l", "d", "5", "5:", "5:abcd", "0", "d1:a", "d1:ai5e", "li5e", "l5:ab"} {
			whole := ctx
			// cut the document right after the unfinished element
			cut := strings.Index(whole, "%s")
			mustRefuse(c, []byte(whole[:cut]+s), "truncated document")
			c.Distinct(ctx, s, "cut")
		}
	}
	for _, n := range []int{0, 1, 9, 10, 11, 99, 100, 1000, 65535, 65536, 1 << 20, 5 << 20} {
		v := ref.L(ref.B(bytes.Repeat([]byte{'e'}, n)), ref.I(7))
		mustDecode(c, v)
		c.Distinct("len", n)
	}
	// wide containers
	wide := ref.L()
	d := ref.D()
	for i := 0; i < 3000; i++ {
		wide.L = append(wide.L, ref.I(int64(i)))
		d.Put(fmt.Sprintf("%05d", i), ref.I(int64(-i)))
	}
	mustDecode(c, wide)
	mustDecode(c, d)
}

// wide has containers of many elements and long strings.
func wide(c *mon.Case) {
	r := c.R
	n := 1 << (8 + r.IntN(10))
	n += r.IntN(5) - 2
	if r.IntN(2) == 0 {
		n = 1000 + r.IntN(60000)
	}
	elem := func(i int) *ref.Val {
		switch r.IntN(5) {
		case 0:
			return ref.I(ref.RandInt(r))
		case 1:
			return ref.L()
		case 2:
			return ref.D("k", ref.I(int64(i)))
		}
		return ref.B(ref.RandBytes(r, 6))
	}
	var v *ref.Val
	switch kind := r.IntN(4); kind {
	case 0:
		v = ref.L()
		for i := 0; i < n; i++ {
			v.L = append(v.L, elem(i))
		}
	case 1:
		v = ref.D()
		for _, i := range r.Perm(n) {
			v.Keys = append(v.Keys, fmt.Sprintf("%x", i))
			v.Vals = append(v.Vals, elem(i))
		}
	case 2:
		long := make([]byte, n*(1+r.IntN(16)))
		for i := range long {
			long[i] = byte(r.Uint32())
		}
		v = ref.D("a", ref.I(1), "b", ref.B(long), "c", ref.L(ref.B(long[:n]), ref.I(2)))
	default:
		// long keys
		v = ref.D()
		for i := 0; i < 8; i++ {
			v.Put(strings.Repeat(string(rune('a'+i)), n/(1+i)), elem(i))
		}
	}
	if r.IntN(2) == 0 {
		v = ref.L(v, ref.S("after"))
	}
	mustDecode(c, v)
	data := v.Encode()
	mustRefuse(c, data[:len(data)-1], "truncated document")
	mustRefuse(c, data[:r.IntN(len(data))], "truncated document")
	c.Distinct(n, len(data))
}

func nesting(c *mon.Case) {
	depths := []int{1, 2, 3, 10, 64, 100, 127, 128, 200, 255, 256, 500, 511, 512, 513, 800, 900, 990, 998, 999, 1000}
	build := func(depth int, kind int) *ref.Val {
		v := ref.S("end")
		for i := 1; i < depth; i++ {
			switch k := kind; {
			case k == 0 || k == 2 && c.R.IntN(2) == 0:
				v = ref.L(v)
			case k == 1:
				v = ref.D("a", v)
			default:
				v = ref.D("a", ref.I(1), "b", v)
			}
		}
		return v
	}
	for i, d := range depths {
		v := build(d, (i+int(c.Seed%3))%3)
		got, err := decode(c, v.Encode())
		c.Check(err == nil, "document nested %d deep refused: %v", d, err)
		if d <= 300 || c.R.IntN(4) == 0 {
			if err := match.Value(got, v, d <= 300); err != nil {
				c.Fail("document nested %d deep decoded wrongly: %v", d, err)
			}
		}
		c.Distinct("depth", d)
		c.Count("deep_decoded", 1)
	}
	// a thousand levels, with something in the innermost
	for _, unit := range []string{"l", "d1:a"} {
		for _, leaf := range []string{"i1e", "1:x", "le", "de"} {
			levels := 1000
			if len(leaf) == 2 {
				levels--
			}
			data := strings.Repeat(unit, levels) + leaf + strings.Repeat("e", levels)
			_, err := decode(c, []byte(data))
			c.Check(err == nil, "document of %d levels of %q around %q refused: %v", levels, unit, leaf, err)
			c.Distinct("levels", unit, leaf)
		}
	}
	// beyond: a value or an error, never a crash
	for _, n := range []int{1001, 1025, 5000, 100000, 3000000} {
		for _, unit := range []string{"l", "d1:a", "ld0:"} {
			data := strings.Repeat(unit, n)
			mustRefuse(c, []byte(data), "truncated document")
			if n <= 100000 {
				closed := data + "i1e" + strings.Repeat("e", n*strings.Count(unit, "d")+n*strings.Count(unit, "l"))
				_, _ = decode(c, []byte(closed))
			}
			c.Distinct("beyond", n, unit)
		}
	}
}

// concurrent decodes different documents at the same time.
func concurrent(c *mon.Case) {
	type job struct {
		data []byte
		want *ref.Val
	}
	const workers = 4
	jobs := make([][]job, workers)
	for w := range jobs {
		for i := 0; i < 40; i++ {
			v := ref.RandVal(c.R, 2+c.R.IntN(5), 50)
			data := v.Encode()
			if c.R.IntN(3) == 0 {
				jobs[w] = append(jobs[w], job{data[:c.R.IntN(len(data))], nil})
				continue
			}
			jobs[w] = append(jobs[w], job{data, v})
		}
	}
	wrong := make(chan string, workers)
	var wg sync.WaitGroup
	for w := range jobs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if x := recover(); x != nil {
					wrong <- fmt.Sprintf("crash while other documents are decoded: %v", x)
				}
			}()
			for round := 0; round < 5; round++ {
				for _, j := range jobs[w] {
					got, err := bencode.Parse(j.data)
					if j.want == nil {
						if err == nil {
							wrong <- fmt.Sprintf("truncated document %.300q accepted while others are decoded", j.data)
							return
						}
						continue
					}
					if err == nil {
						err = match.Value(got, j.want, true)
					}
					if err != nil {
						wrong <- fmt.Sprintf("document %.300q decoded wrongly while others are decoded: %v", j.data, err)
						return
					}
				}
			}
		}()
	}
	wg.Wait()
	close(wrong)
	for m := range wrong {
		c.Fail("%s", m)
	}
	for w := range jobs {
		c.Eval(len(jobs[w]) * 5)
		c.Distinct(jobs[w][0].data)
	}
	c.Count("decoded_concurrently", workers*200)
}
