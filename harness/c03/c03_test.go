package c03

import (
	"bytes"
	"fmt"
	"math"
	"math/rand/v2"
	"reflect"
	"strings"
	"testing"

	"github.com/anivanovic/gotit/pkg/bencode"

	"verif/internal/mon"
	"verif/internal/ref"
)

func Test(t *testing.T) {
	mon.Main(t, "C03",
		mon.Family{Name: "assign", Quick: 6000, Thorough: 60000, Fn: assign},
		mon.Family{Name: "refuse", Quick: 6000, Thorough: 60000, Fn: refuse},
		mon.Family{Name: "limits", Quick: 1, Thorough: 1, Fn: limits},
		mon.Family{Name: "metainfo", Quick: 1000, Thorough: 10000, Fn: metainfo},
		mon.Family{Name: "hostile", Quick: 3000, Thorough: 30000, Fn: hostile},
	)
}

// The shapes cover every supported kind of field, required and optional.

type Leaf struct {
	Name  string `ben:"name"`
	Count int    `ben:"count,optional"`
	note  string
}

type Inner struct {
	A    int32             `ben:"a"`
	Raw  []byte            `ben:"raw,optional"`
	Leaf Leaf              `ben:"leaf"`
	M    map[string]string `ben:"m,optional"`
}

type All struct {
	Str     string `ben:"str"`
	I       int    `ben:"i"`
	I8      int8   `ben:"i8,optional"`
	I16     int16  `ben:"i16,optional"`
	I32     int32  `ben:"i32,optional"`
	I64     int64  `ben:"i64,optional"`
	U       uint   `ben:"u,optional"`
	U8      uint8  `ben:"u8,optional"`
	U16     uint16 `ben:"u16,optional"`
	U32     uint32 `ben:"u32,optional"`
	U64     uint64 `ben:"u64,optional"`
	Skipped string
	Bytes   []byte              `ben:"bytes,optional"`
	Strs    []string            `ben:"strs,optional"`
	Ints    []int64             `ben:"ints,optional"`
	I8s     []int8              `ben:"i8s,optional"`
	Blobs   [][]byte            `ben:"blobs,optional"`
	Matrix  [][]string          `ben:"matrix,optional"`
	In      Inner               `ben:"in"`
	Leaves  []Leaf              `ben:"leaves,optional"`
	PStr    *string             `ben:"pstr,optional"`
	PInt    *int16              `ben:"pint,optional"`
	PLeaf   *Leaf               `ben:"pleaf,optional"`
	PStrs   *[]string           `ben:"pstrs,optional"`
	PLeaves []*Leaf             `ben:"pleaves,optional"`
	MInt    map[string]int      `ben:"mint,optional"`
	MU8     map[string]uint8    `ben:"mu8,optional"`
	MLeaf   map[string]Leaf     `ben:"mleaf,optional"`
	MStrs   map[string][]string `ben:"mstrs,optional"`
	Dup     []byte              `ben:"in"`
	Last    string              `ben:"last key"`
	private int                 `ben:"private"`
}

type Small struct {
	X int8  `ben:"x"`
	Y uint8 `ben:"y,optional"`
	Z []int `ben:"z,optional"`
}

type Opt struct {
	A string   `ben:"a,optional"`
	B *Leaf    `ben:"b,optional"`
	C []string `ben:"c,optional"`
	D int64    `ben:"d,optional"`
}

// Odd has keys that look like options, and options that are none.
type Odd struct {
	Optional string   `ben:"optional"`
	Req      int      `ben:"req,"`
	Other    string   `ben:"other,required"`
	Both     []string `ben:"both,x,optional"`
	Spaced   string   `ben:" spaced "`
	Upper    int      `ben:"KEY"`
	Lower    int      `ben:"key,optional"`
	Digits   uint16   `ben:"12"`
}

var shapes = []reflect.Type{reflect.TypeOf(All{}), reflect.TypeOf(Small{}), reflect.TypeOf(Opt{}), reflect.TypeOf(Inner{}), reflect.TypeOf(Leaf{}), reflect.TypeOf(Odd{})}

// tag splits the ben tag of a field.
func tag(f reflect.StructField) (name string, optional bool) {
	parts := strings.Split(f.Tag.Get("ben"), ",")
	for _, p := range parts[1:] {
		optional = optional || p == "optional"
	}
	return parts[0], optional
}

func intRange(k reflect.Kind) (lo, hi int64, ok bool) {
	switch k {
	case reflect.Int, reflect.Int64:
		return math.MinInt64, math.MaxInt64, true
	case reflect.Int8:
		return math.MinInt8, math.MaxInt8, true
	case reflect.Int16:
		return math.MinInt16, math.MaxInt16, true
	case reflect.Int32:
		return math.MinInt32, math.MaxInt32, true
	case reflect.Uint, reflect.Uint64:
		return 0, math.MaxInt64, true
	case reflect.Uint8:
		return 0, math.MaxUint8, true
	case reflect.Uint16:
		return 0, math.MaxUint16, true
	case reflect.Uint32:
		return 0, math.MaxUint32, true
	}
	return 0, 0, false
}

func inRange(r *rand.Rand, lo, hi int64) int64 {
	switch r.IntN(5) {
	case 0:
		return lo
	case 1:
		return hi
	}
	for i := 0; i < 20; i++ {
		if n := ref.RandInt(r); n >= lo && n <= hi {
			return n
		}
	}
	if lo == 0 {
		return int64(r.Uint64N(uint64(hi) + 1))
	}
	return lo + int64(r.Uint64N(uint64(hi)))
}

// gen makes a document for a type and the value it must be decoded to.
func gen(r *rand.Rand, t reflect.Type, want reflect.Value, depth int) *ref.Val {
	if lo, hi, ok := intRange(t.Kind()); ok {
		n := inRange(r, lo, hi)
		if want.CanInt() {
			want.SetInt(n)
		} else {
			want.SetUint(uint64(n))
		}
		return ref.I(n)
	}
	switch t.Kind() {
	case reflect.String:
		b := ref.RandBytes(r, 20)
		want.SetString(string(b))
		return ref.B(b)
	case reflect.Pointer:
		want.Set(reflect.New(t.Elem()))
		return gen(r, t.Elem(), want.Elem(), depth)
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 {
			v := ref.RandVal(r, 2, 6)
			for v.Kind == ref.Int {
				v = ref.RandVal(r, 2, 6)
			}
			if v.Kind == ref.Str {
				want.SetBytes(v.S)
			} else {
				want.SetBytes(v.Encode())
			}
			return v
		}
		n := r.IntN(4)
		want.Set(reflect.MakeSlice(t, n, n))
		l := ref.L()
		for i := 0; i < n; i++ {
			l.L = append(l.L, gen(r, t.Elem(), want.Index(i), depth-1))
		}
		return l
	case reflect.Map:
		want.Set(reflect.MakeMap(t))
		d := ref.D()
		for i := r.IntN(4); i > 0; i-- {
			k := fmt.Sprintf("%c%d", 'a'+r.IntN(26), i)
			e := reflect.New(t.Elem()).Elem()
			d.Put(k, gen(r, t.Elem(), e, depth-1))
			want.SetMapIndex(reflect.ValueOf(k), e)
		}
		return d
	case reflect.Struct:
		d := ref.D()
		made := map[string]*ref.Val{}
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			name, optional := tag(f)
			if name == "" || !f.IsExported() {
				continue
			}
			if v := made[name]; v != nil {
				// second field with the same key: raw bytes of the value
				want.Field(i).SetBytes(v.Encode())
				continue
			}
			if optional && r.IntN(3) == 0 {
				continue
			}
			v := gen(r, f.Type, want.Field(i), depth-1)
			made[name] = v
			d.Put(name, v)
		}
		// keys nobody asked for
		for i := r.IntN(3); i > 0; i-- {
			k := fmt.Sprintf("unknown %d", i)
			d.Put(k, ref.RandVal(r, 2, 5))
		}
		return d
	}
	panic("no generator for " + t.String())
}

// prefill gives fields recognisable values, so untouched ones can be told and
// nothing of them may stay in those that are set.
func prefill(r *rand.Rand, v reflect.Value) {
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if !f.CanSet() || r.IntN(2) == 0 {
			continue
		}
		fill(r, f)
	}
}

func fill(r *rand.Rand, f reflect.Value) {
	switch f.Kind() {
	case reflect.String:
		f.SetString("before")
	case reflect.Struct:
		prefill(r, f)
	case reflect.Slice:
		n := 1 + r.IntN(4)
		f.Set(reflect.MakeSlice(f.Type(), n, n+r.IntN(3)))
		for i := 0; i < n; i++ {
			fill(r, f.Index(i))
		}
	case reflect.Map:
		f.Set(reflect.MakeMap(f.Type()))
		for i := r.IntN(3); i >= 0; i-- {
			e := reflect.New(f.Type().Elem()).Elem()
			fill(r, e)
			f.SetMapIndex(reflect.ValueOf(fmt.Sprintf("before%d", i)), e)
		}
	case reflect.Pointer:
		// what a pointer to a struct held may be kept or not
		if k := f.Type().Elem().Kind(); k != reflect.Struct {
			f.Set(reflect.New(f.Type().Elem()))
			fill(r, f.Elem())
		} else {
			f.Set(reflect.New(f.Type().Elem()))
		}
	default:
		if f.CanInt() {
			f.SetInt(7)
		} else if f.CanUint() {
			f.SetUint(7)
		}
	}
}

// clone copies a value without sharing anything.
func clone(v reflect.Value) reflect.Value {
	c := reflect.New(v.Type()).Elem()
	c.Set(v)
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if c.Field(i).CanSet() {
				c.Field(i).Set(clone(v.Field(i)))
			}
		}
	case reflect.Slice:
		if !v.IsNil() {
			c.Set(reflect.MakeSlice(v.Type(), v.Len(), v.Len()))
			for i := 0; i < v.Len(); i++ {
				c.Index(i).Set(clone(v.Index(i)))
			}
		}
	case reflect.Map:
		if !v.IsNil() {
			c.Set(reflect.MakeMap(v.Type()))
			for _, k := range v.MapKeys() {
				c.SetMapIndex(k, clone(v.MapIndex(k)))
			}
		}
	case reflect.Pointer:
		if !v.IsNil() {
			c.Set(reflect.New(v.Type().Elem()))
			c.Elem().Set(clone(v.Elem()))
		}
	}
	return c
}

func unmarshal(c *mon.Case, data []byte, target any) (err error) {
	in := append([]byte(nil), data...)
	c.Call(fmt.Sprintf("unmarshal %.300q into %T", data, target), func() { err = bencode.Unmarshal(in, target) })
	c.Eval(1)
	return err
}

func equal(a, b reflect.Value) bool {
	// empty and nil slices carry the same value
	return reflect.DeepEqual(normal(a), normal(b))
}

func normal(v reflect.Value) any { return render(v) }

// render writes a value out with pointers followed.
func render(v reflect.Value) string {
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			return "nil"
		}
		return "&" + render(v.Elem())
	case reflect.Struct:
		var b strings.Builder
		b.WriteString("{")
		for i := 0; i < v.NumField(); i++ {
			fmt.Fprintf(&b, "%s:%s ", v.Type().Field(i).Name, render(v.Field(i)))
		}
		return b.String() + "}"
	case reflect.Slice:
		var b strings.Builder
		b.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			b.WriteString(render(v.Index(i)) + ",")
		}
		return b.String() + "]"
	case reflect.Map:
		keys := []string{}
		for _, k := range v.MapKeys() {
			keys = append(keys, k.String()+"="+render(v.MapIndex(k)))
		}
		sortStrings(keys)
		return "map" + fmt.Sprintf("%q", keys)
	case reflect.String:
		return fmt.Sprintf("%q", v.String())
	}
	if v.CanInt() {
		return fmt.Sprint(v.Int())
	}
	if v.CanUint() {
		return fmt.Sprint(v.Uint())
	}
	return v.String()
}

func sortStrings(s []string) {
	for i := range s {
		for j := i + 1; j < len(s); j++ {
			if s[j] < s[i] {
				s[i], s[j] = s[j], s[i]
			}
		}
	}
}

func assign(c *mon.Case) {
	for i := 0; i < 6; i++ {
		t := shapes[c.R.IntN(len(shapes))]
		if c.R.IntN(2) == 0 {
			t = shapes[0]
		}
		target := reflect.New(t)
		prefill(c.R, target.Elem())
		want := clone(target.Elem())
		doc := gen(c.R, t, want, 3).Shuffle(c.R)
		if t == shapes[0] {
			// raw bytes are those of the shuffled document
			want.FieldByName("Dup").SetBytes(doc.Get("in").Encode())
			fixRaw(want, doc)
		} else {
			fixRaw(want, doc)
		}
		data := doc.Encode()
		err := unmarshal(c, data, target.Interface())
		c.Check(err == nil, "document %.600q refused for %v: %v", data, t, err)
		c.Check(equal(target.Elem(), want), "document %.600q\n gave %s\n want %s", data, render(target.Elem()), render(want))
		c.Count("fields_checked", t.NumField())
		c.Distinct(data)
		c.Sample("%v from %q", t, data)
	}
}

// fixRaw sets byte fields holding containers to the bytes in the document.
func fixRaw(want reflect.Value, doc *ref.Val) {
	switch want.Kind() {
	case reflect.Pointer:
		if !want.IsNil() {
			fixRaw(want.Elem(), doc)
		}
	case reflect.Struct:
		for i := 0; i < want.NumField(); i++ {
			f := want.Type().Field(i)
			name, _ := tag(f)
			if v := doc.Get(name); name != "" && f.IsExported() && v != nil {
				fixRaw(want.Field(i), v)
			}
		}
	case reflect.Slice:
		if want.Type().Elem().Kind() == reflect.Uint8 {
			if doc.Kind == ref.Str {
				want.SetBytes(doc.S)
			} else {
				want.SetBytes(doc.Encode())
			}
			return
		}
		for i := 0; i < want.Len() && i < len(doc.L); i++ {
			fixRaw(want.Index(i), doc.L[i])
		}
	}
}

// spot is a place in a document whose value decides a field.
type spot struct {
	holder   *ref.Val
	at       int // index in Vals or L
	t        reflect.Type
	required bool
	inDict   bool
	name     string
}

func spots(doc *ref.Val, t reflect.Type, out *[]spot) {
	for t.Kind() == reflect.Pointer {
		t = t.Elem()
	}
	switch t.Kind() {
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			name, optional := tag(f)
			if name == "" || !f.IsExported() {
				continue
			}
			for j, k := range doc.Keys {
				if k == name {
					*out = append(*out, spot{doc, j, f.Type, !optional, true, name})
					spots(doc.Vals[j], f.Type, out)
				}
			}
		}
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 || doc.Kind != ref.List {
			return
		}
		for i := range doc.L {
			*out = append(*out, spot{holder: doc, at: i, t: t.Elem()})
			spots(doc.L[i], t.Elem(), out)
		}
	case reflect.Map:
		for i := range doc.Vals {
			*out = append(*out, spot{holder: doc, at: i, t: t.Elem(), inDict: true})
			spots(doc.Vals[i], t.Elem(), out)
		}
	}
}

func (s spot) set(v *ref.Val) {
	if s.inDict {
		s.holder.Vals[s.at] = v
	} else {
		s.holder.L[s.at] = v
	}
}

// spoil makes the document wrong at one place; it returns why, or "".
func spoil(r *rand.Rand, s spot) string {
	t := s.t
	for t.Kind() == reflect.Pointer {
		t = t.Elem()
	}
	if s.required && r.IntN(3) == 0 {
		s.holder.Keys = append(s.holder.Keys[:s.at:s.at], s.holder.Keys[s.at+1:]...)
		s.holder.Vals = append(s.holder.Vals[:s.at:s.at], s.holder.Vals[s.at+1:]...)
		return "required key " + s.name + " missing"
	}
	if lo, hi, ok := intRange(t.Kind()); ok {
		var bad []int64
		for _, n := range []int64{lo - 1, hi + 1, lo - 256, hi + 256, hi * 2, math.MinInt64, math.MaxInt64, lo + (hi+1)*4, 1 << 32, 1 << 40, -(1 << 33), hi + 1 + 5, -1} {
			if n < lo || n > hi {
				bad = append(bad, n)
			}
		}
		if len(bad) == 0 {
			return ""
		}
		n := bad[r.IntN(len(bad))]
		s.set(ref.I(n))
		return fmt.Sprintf("number %d does not fit %v", n, t)
	}
	switch t.Kind() {
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 {
			return ""
		}
		s.set([]*ref.Val{ref.S("abc"), ref.I(3), ref.D("a", ref.S("x")), ref.S(""), ref.D()}[r.IntN(5)])
		return "not a list for " + t.String()
	case reflect.Struct, reflect.Map:
		s.set([]*ref.Val{ref.S("abc"), ref.I(3), ref.L(ref.S("x")), ref.S(""), ref.L()}[r.IntN(5)])
		return "not a dictionary for " + t.String()
	}
	return ""
}

func refuse(c *mon.Case) {
	for i := 0; i < 8; i++ {
		t := shapes[c.R.IntN(len(shapes))]
		want := reflect.New(t).Elem()
		doc := gen(c.R, t, want, 3)
		target := reflect.New(t)
		if c.R.IntN(2) == 0 {
			prefill(c.R, target.Elem())
		}
		if c.R.IntN(8) == 0 {
			// not a dictionary at all
			v := []*ref.Val{ref.S("abc"), ref.I(1), ref.L(), ref.L(doc), ref.S("")}[c.R.IntN(5)]
			err := unmarshal(c, v.Encode(), target.Interface())
			c.Check(err != nil, "document %v, not a dictionary, accepted for %v", v, t)
			c.Count("refused_not_a_dictionary", 1)
			c.Distinct(t, v.Encode())
			continue
		}
		var all []spot
		spots(doc, t, &all)
		if len(all) == 0 {
			continue
		}
		why := ""
		for k := 0; k < 10 && why == ""; k++ {
			why = spoil(c.R, all[c.R.IntN(len(all))])
		}
		if why == "" {
			continue
		}
		data := doc.Encode()
		err := unmarshal(c, data, target.Interface())
		c.Check(err != nil, "document %.600q accepted for %v although: %s\n gave %s", data, t, why, render(target.Elem()))
		c.Count("refused", 1)
		c.Distinct(data)
	}
}

func limits(c *mon.Case) {
	t := reflect.TypeOf(All{})
	base := func() *ref.Val {
		return ref.D("str", ref.S("s"), "i", ref.I(1), "in", ref.D("a", ref.I(2), "leaf", ref.D("name", ref.S("n"))), "last key", ref.S("l"))
	}
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		lo, hi, ok := intRange(f.Type.Kind())
		if !ok || !f.IsExported() {
			continue
		}
		name, _ := tag(f)
		for _, n := range []int64{lo, lo + 1, hi, hi - 1, 0, 1} {
			doc := base()
			setKey(doc, name, ref.I(n))
			var a All
			err := unmarshal(c, doc.Encode(), &a)
			c.Check(err == nil, "number %d refused for %v: %v", n, f.Type, err)
			got := reflect.ValueOf(a).Field(i)
			c.Check(render(got) == fmt.Sprint(n), "number %d stored as %s in %v", n, render(got), f.Type)
			c.Distinct(name, n)
		}
		for _, n := range []int64{lo - 1, hi + 1, hi + 2, -1, -1 << 40, 1 << 40} {
			if n >= lo && n <= hi {
				continue
			}
			doc := base()
			setKey(doc, name, ref.I(n))
			var a All
			err := unmarshal(c, doc.Encode(), &a)
			c.Check(err != nil, "number %d accepted for %v", n, f.Type)
			c.Distinct(name, n)
		}
	}
	// targets that are not pointers to structs
	for _, target := range []any{All{}, 5, "x", new(int), &[]string{}, map[string]int{}} {
		err := unmarshal(c, base().Encode(), target)
		c.Check(err != nil, "target %T accepted", target)
	}
}

func setKey(d *ref.Val, k string, v *ref.Val) {
	for i := range d.Keys {
		if d.Keys[i] == k {
			d.Vals[i] = v
			return
		}
	}
	d.Put(k, v)
}

// metainfo drives the struct the client itself uses.
func metainfo(c *mon.Case) {
	for i := 0; i < 10; i++ {
		r := c.R
		info := ref.D("name", ref.B(ref.RandBytes(r, 12)), "piece length", ref.I(ref.RandInt(r)), "pieces", ref.B(ref.RandBytes(r, 80)))
		var files []bencode.TorrentFile
		if r.IntN(2) == 0 {
			info.Put("length", ref.I(ref.RandInt(r)))
		}
		if r.IntN(2) == 0 {
			l := ref.L()
			for n := r.IntN(4); n > 0; n-- {
				f := bencode.TorrentFile{Length: int(ref.RandInt(r))}
				p := ref.L()
				for k := r.IntN(4); k > 0; k-- {
					s := ref.RandBytes(r, 8)
					p.L = append(p.L, ref.B(s))
					f.Path = append(f.Path, string(s))
				}
				files = append(files, f)
				l.L = append(l.L, ref.D("length", ref.I(int64(f.Length)), "path", p))
			}
			info.Put("files", l)
		}
		doc := ref.D("announce", ref.S("http://a/"), "info", info)
		var lists [][]string
		if r.IntN(2) == 0 {
			al := ref.L()
			for n := r.IntN(3); n > 0; n-- {
				tier := ref.L()
				var ts []string
				for k := r.IntN(3); k > 0; k-- {
					s := string(ref.RandBytes(r, 10))
					ts = append(ts, s)
					tier.L = append(tier.L, ref.S(s))
				}
				lists = append(lists, ts)
				al.L = append(al.L, tier)
			}
			doc.Put("announce-list", al)
		}
		doc.Put("comment", ref.S("hello"))
		doc.Put("creation date", ref.I(1234567890123))
		doc = doc.Shuffle(r)
		var m bencode.Metainfo
		err := unmarshal(c, doc.Encode(), &m)
		c.Check(err == nil, "metainfo %v refused: %v", doc, err)
		in := doc.Get("info")
		c.Check(m.Announce == "http://a/" && m.Comment == "hello" && m.CreationDate == 1234567890123 && m.CreatedBy == "", "metainfo fields: %+v from %v", m, doc)
		c.Check(m.Info.Name == string(in.Get("name").S) && m.Info.Pieces == string(in.Get("pieces").S) && m.Info.PieceLength == in.Get("piece length").I, "info fields: %+v from %v", m.Info, doc)
		if l := in.Get("length"); l != nil {
			c.Check(m.Info.Length == l.I, "length %d from %v", m.Info.Length, doc)
		} else {
			c.Check(m.Info.Length == 0, "length %d from %v", m.Info.Length, doc)
		}
		c.Check(bytes.Equal(m.InfoDictRaw, in.Encode()), "raw info %q from %v", m.InfoDictRaw, doc)
		c.Check(len(m.Info.Files) == len(files) && (len(files) == 0 || render(reflect.ValueOf(m.Info.Files)) == render(reflect.ValueOf(files))), "files %v, want %v", m.Info.Files, files)
		c.Check(render(reflect.ValueOf(m.AnnounceList)) == render(reflect.ValueOf(lists)), "announce list %q, want %q", m.AnnounceList, lists)
		c.Distinct(doc.Encode())
		c.Count("metainfo_documents", 1)
	}
}

// hostile documents must not crash the decoder whatever the target.
func hostile(c *mon.Case) {
	for i := 0; i < 20; i++ {
		t := shapes[c.R.IntN(len(shapes))]
		doc := gen(c.R, t, reflect.New(t).Elem(), 3)
		var all []spot
		spots(doc, t, &all)
		for k := 0; k < 3 && len(all) > 0; k++ {
			all[c.R.IntN(len(all))].set(ref.RandVal(c.R, 3, 8))
		}
		data := doc.Encode()
		if c.R.IntN(3) == 0 {
			data[c.R.IntN(len(data))] = byte(c.R.UintN(256))
		}
		_ = unmarshal(c, data, reflect.New(t).Interface())
		var m bencode.Metainfo
		_ = unmarshal(c, data, &m)
		c.Count("hostile_documents", 1)
	}
}
