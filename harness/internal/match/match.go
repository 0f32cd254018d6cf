// Package match compares values of the code under test with the reference model.
package match

import (
	"bytes"
	"fmt"

	"github.com/anivanovic/gotit/pkg/bencode"

	"verif/internal/ref"
)

// Value checks that b is exactly v. With raw set, lists and dictionaries must
// also carry their exact source bytes, which are those of v in stored order.
func Value(b bencode.Bencode, v *ref.Val, raw bool) error {
	switch x := b.(type) {
	case nil:
		return fmt.Errorf("no value, want %v", v)
	case bencode.IntElement:
		if v.Kind != ref.Int || int64(x) != v.I {
			return fmt.Errorf("got integer %d, want %v", x, v)
		}
	case bencode.StringElement:
		if v.Kind != ref.Str || string(x) != string(v.S) {
			return fmt.Errorf("got string %q, want %v", string(x), v)
		}
	case *bencode.ListElement:
		return list(x.Value, x, v, raw)
	case bencode.ListElement:
		return list(x.Value, x, v, raw)
	case *bencode.DictElement:
		return dict(x.Value, x, v, raw)
	case bencode.DictElement:
		return dict(x.Value, x, v, raw)
	default:
		return fmt.Errorf("unexpected element %T", b)
	}
	return nil
}

func rawBytes(b bencode.Bencode, v *ref.Val) error {
	if want := v.Encode(); !bytes.Equal(b.Raw(), want) {
		return fmt.Errorf("raw bytes %.200q, want %.200q", b.Raw(), want)
	}
	return nil
}

func list(items []bencode.Bencode, b bencode.Bencode, v *ref.Val, raw bool) error {
	if v.Kind != ref.List {
		return fmt.Errorf("got list, want %v", v)
	}
	if len(items) != len(v.L) {
		return fmt.Errorf("list has %d elements, want %d: %v", len(items), len(v.L), v)
	}
	for i, x := range v.L {
		if err := Value(items[i], x, raw); err != nil {
			return fmt.Errorf("[%d] %w", i, err)
		}
	}
	if raw {
		return rawBytes(b, v)
	}
	return nil
}

func dict(get func(string) bencode.Bencode, b bencode.Bencode, v *ref.Val, raw bool) error {
	if v.Kind != ref.Dict {
		return fmt.Errorf("got dictionary, want %v", v)
	}
	has := make(map[string]bool, len(v.Keys))
	for _, k := range v.Keys {
		has[k] = true
	}
	for i, k := range v.Keys {
		if err := Value(get(k), v.Vals[i], raw); err != nil {
			return fmt.Errorf("[%q] %w", k, err)
		}
		for _, other := range []string{k + "x", k + "\x00"} {
			if !has[other] && get(other) != nil {
				return fmt.Errorf("unexpected key %q", other)
			}
		}
	}
	if raw {
		return rawBytes(b, v)
	}
	return nil
}
