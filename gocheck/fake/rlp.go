package fake

import (
	"fmt"
)

// Item is a value in the RLP dialect of the network: a byte string, a list,
// or nil (f800). Integers are big endian two's complement byte strings.
type Item struct {
	Nil   bool
	List  bool
	Bytes []byte
	Items []*Item
}

func parseLen(b []byte, n int) (int, error) {
	if len(b) < n {
		return 0, fmt.Errorf("truncated size")
	}
	v := 0
	for _, x := range b[:n] {
		if v > 1<<40 {
			return 0, fmt.Errorf("size too large")
		}
		v = v<<8 | int(x)
	}
	return v, nil
}

func parseItem(b []byte) (*Item, []byte, error) {
	if len(b) == 0 {
		return nil, nil, fmt.Errorf("no bytes left")
	}
	h := int(b[0])
	take := func(off, n int) ([]byte, []byte, error) {
		if n > len(b)-off {
			return nil, nil, fmt.Errorf("%d bytes of %d", len(b)-off, n)
		}
		return b[off : off+n], b[off+n:], nil
	}
	switch {
	case h < 0x80:
		return &Item{Bytes: b[:1]}, b[1:], nil
	case h < 0xb8:
		v, rest, err := take(1, h-0x80)
		return &Item{Bytes: v}, rest, err
	case h < 0xc0:
		n, err := parseLen(b[1:], h-0xb7)
		if err != nil {
			return nil, nil, err
		}
		v, rest, err := take(1+h-0xb7, n)
		return &Item{Bytes: v}, rest, err
	}
	var body, rest []byte
	var err error
	if h < 0xf8 {
		body, rest, err = take(1, h-0xc0)
	} else {
		n, e := parseLen(b[1:], h-0xf7)
		if e != nil {
			return nil, nil, e
		}
		if h == 0xf8 && n == 0 {
			return &Item{Nil: true}, b[2:], nil
		}
		body, rest, err = take(1+h-0xf7, n)
	}
	if err != nil {
		return nil, nil, err
	}
	it := &Item{List: true}
	for len(body) > 0 {
		var x *Item
		if x, body, err = parseItem(body); err != nil {
			return nil, nil, err
		}
		it.Items = append(it.Items, x)
	}
	return it, rest, nil
}

// ParseRLP reads exactly one value.
func ParseRLP(b []byte) (*Item, error) {
	it, rest, err := parseItem(b)
	if err != nil {
		return nil, err
	}
	if len(rest) > 0 {
		return nil, fmt.Errorf("%d bytes behind the value", len(rest))
	}
	return it, nil
}

// Int is the value of an integer.
func (i *Item) Int() (int64, error) {
	if i.Nil || i.List || len(i.Bytes) == 0 || len(i.Bytes) > 8 {
		return 0, fmt.Errorf("not an integer")
	}
	v := int64(int8(i.Bytes[0]))
	for _, x := range i.Bytes[1:] {
		v = v<<8 | int64(x)
	}
	return v, nil
}

// Blob is the value of a byte string, nil for nil.
func (i *Item) Blob() ([]byte, error) {
	if i.List {
		return nil, fmt.Errorf("list for a byte string")
	}
	if i.Nil {
		return nil, nil
	}
	return append([]byte{}, i.Bytes...), nil
}

// Seq is the content of a list (none for nil); n is its length, or -1.
func (i *Item) Seq(n int) ([]*Item, error) {
	if !i.List && !i.Nil {
		return nil, fmt.Errorf("byte string for a list")
	}
	if n >= 0 && len(i.Items) != n {
		return nil, fmt.Errorf("list of %d for %d", len(i.Items), n)
	}
	return i.Items, nil
}

// EncInt, EncBytes, EncList and EncNil write the dialect.
func EncInt(v int64) []byte {
	var b []byte
	for {
		b = append([]byte{byte(v)}, b...)
		if v >= -128 && v <= 127 {
			break
		}
		v >>= 8
	}
	return EncBytes(b)
}

func encHead(short, long int, n int) []byte {
	if n <= 55 {
		return []byte{byte(short + n)}
	}
	var l []byte
	for x := n; x > 0; x >>= 8 {
		l = append([]byte{byte(x)}, l...)
	}
	return append([]byte{byte(long + len(l))}, l...)
}

func EncBytes(b []byte) []byte {
	if len(b) == 1 && b[0] < 0x80 {
		return []byte{b[0]}
	}
	return append(encHead(0x80, 0xb7, len(b)), b...)
}

func EncList(items ...[]byte) []byte {
	var body []byte
	for _, i := range items {
		body = append(body, i...)
	}
	return append(encHead(0xc0, 0xf7, len(body)), body...)
}

func EncNil() []byte { return []byte{0xf8, 0} }
