package codec

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/big"
	"testing"

	"github.com/icon-project/btp/common/codec"
	"pgregory.net/rapid"

	"verif/gocheck/pbt"
)

// item is one element of a stream: bytes, an integer, a text, a list, nothing,
// or an element given in its encoded form.
type item struct {
	kind byte // b i s l n r
	b    []byte
	i    int64
	s    string
	kids []*item
	how  int // how a list is written
	enc  func(tr *item) []byte
}

func genItem(t *rapid.T, depth int) *item {
	ks := "bisnr"
	if depth > 0 {
		ks = "bisnrlllll"
	}
	it := &item{kind: ks[rapid.IntRange(0, len(ks)-1).Draw(t, "kind")]}
	switch it.kind {
	case 'b':
		if it.b = genBytes(t); it.b == nil {
			it.b = []byte{}
		}
	case 'i':
		it.i = int64(drawBits(t, 64))
	case 's':
		it.s = string(genBytes(t))
	case 'r':
		it.kids = []*item{genItem(t, depth-1)}
	case 'l':
		it.how = rapid.IntRange(0, 3).Draw(t, "how")
		for n := rapid.SampledFrom([]int{0, 1, 2, 3, 3, 4, 18}).Draw(t, "n"); n > 0; n-- {
			it.kids = append(it.kids, genItem(t, depth-1))
		}
	}
	return it
}

func (it *item) ref() []byte {
	switch it.kind {
	case 'b':
		return refString(it.b)
	case 'i':
		return refString(RefInt(big.NewInt(it.i)))
	case 's':
		return refString([]byte(it.s))
	case 'n':
		return refNil
	case 'r':
		return it.kids[0].ref()
	}
	var l [][]byte
	for _, k := range it.kids {
		l = append(l, k.ref())
	}
	return refList(l...)
}

func (it *item) String() string {
	switch it.kind {
	case 'b':
		return fmt.Sprintf("b%d:%.4x", len(it.b), it.b)
	case 'i':
		return fmt.Sprint(it.i)
	case 's':
		return fmt.Sprintf("s%d:%.4q", len(it.s), it.s)
	case 'n':
		return "nil"
	case 'r':
		return "raw" + it.kids[0].String()
	}
	s := "["
	for _, k := range it.kids {
		s += k.String() + " "
	}
	return s + "]"
}

func (it *item) plain() *item {
	for it.kind == 'r' {
		it = it.kids[0]
	}
	return it
}

// raw writes and keeps an element as it is encoded.
type raw struct{ b []byte }

func (r raw) MarshalRLP() ([]byte, error)            { return r.b, nil }
func (r *raw) UnmarshalRLP(b []byte) error           { r.b = append([]byte(nil), b...); return nil }
func (it *item) RLPEncodeSelf(e codec.Encoder) error { return it.write(e) }

// value is what the item is given to Encode as.
func (it *item) value() interface{} {
	switch it.kind {
	case 'b':
		return it.b
	case 'i':
		return it.i
	case 's':
		return it.s
	case 'n':
		return []byte(nil)
	case 'r':
		return &raw{it.enc(it.kids[0])}
	}
	return it
}

func (it *item) write(e codec.Encoder) error {
	if it.kind != 'l' {
		return e.Encode(it.value())
	}
	var vs []interface{}
	for _, k := range it.kids {
		vs = append(vs, k.value())
	}
	if it.how == 0 {
		return e.EncodeListOf(vs...)
	}
	e2, err := e.EncodeList()
	if err != nil {
		return err
	}
	if it.how == 1 {
		return e2.EncodeMulti(vs...)
	}
	for i, k := range it.kids {
		if it.how == 3 && i%2 == 1 { // the list before may still be open
			if err := e2.EncodeMulti(k.value()); err != nil {
				return err
			}
			continue
		}
		if err := k.write(e2); err != nil {
			return err
		}
	}
	return nil
}

// into is a variable the item can be decoded into and a check of what it holds.
func (it *item) into(t *rapid.T) (interface{}, func() error) {
	p := it.plain()
	if p.kind == 'l' || p.kind != 'n' && rapid.IntRange(0, 5).Draw(t, "asraw") == 0 {
		v, want := new(raw), it.enc(it)
		return v, func() error {
			if !bytes.Equal(v.b, want) {
				return fmt.Errorf("element %s read as it is encoded is %x, was written as %x", p, v.b, want)
			}
			return nil
		}
	}
	bad := func(v interface{}) error { return fmt.Errorf("%s is read as %v", p, v) }
	switch p.kind {
	case 'i':
		v := p.i + 1
		return &v, func() error {
			if v != p.i {
				return bad(v)
			}
			return nil
		}
	case 's':
		v := "before"
		return &v, func() error {
			if v != p.s {
				return bad(v)
			}
			return nil
		}
	}
	v := []byte("before")
	return &v, func() error {
		if (v == nil) != (p.kind == 'n') || !bytes.Equal(v, p.b) {
			return bad(v)
		}
		return nil
	}
}

type streamStats struct{ left, multi, past int }

// read takes elements from d in drawn ways until they are used up or, below
// the top, the rest is left unread.
func read(t *rapid.T, d codec.Decoder, items []*item, top bool, st *streamStats) error {
	for at := 0; at < len(items); {
		it := items[at].plain()
		act := rapid.IntRange(0, 9).Draw(t, "act")
		switch {
		case act == 0 && !top:
			st.left++
			return nil
		case act == 1:
			// several at once, perhaps more than there are
			n := rapid.IntRange(1, 3).Draw(t, "several")
			var vs []interface{}
			var cs []func() error
			for i := 0; i < n && at+i < len(items); i++ {
				v, c := items[at+i].into(t)
				vs, cs = append(vs, v), append(cs, c)
			}
			have := len(vs)
			if at+n > len(items) {
				vs = append(vs, new([]byte))
			}
			k, err := d.DecodeMulti(vs...)
			if k != have || (err != nil) != (len(vs) > have) || err != nil && !errors.Is(err, io.EOF) {
				return fmt.Errorf("reading %d elements where there are %d: %d, %v", len(vs), have, k, err)
			}
			for _, c := range cs {
				if err := c(); err != nil {
					return err
				}
			}
			st.multi++
			if len(vs) > have {
				st.past++
			}
			at += have
		case it.kind == 'l' && act == 2:
			n := rapid.IntRange(0, len(it.kids)).Draw(t, "listof")
			var vs []interface{}
			var cs []func() error
			for _, k := range it.kids[:n] {
				v, c := k.into(t)
				vs, cs = append(vs, v), append(cs, c)
			}
			if err := d.DecodeListOf(vs...); err != nil {
				return fmt.Errorf("reading the first %d elements of the list %s: %v", n, it, err)
			}
			for _, c := range cs {
				if err := c(); err != nil {
					return err
				}
			}
			if n < len(it.kids) {
				st.left++
			}
			at++
		case it.kind == 'l' && act < 9:
			d2, err := d.DecodeList()
			if err != nil {
				return fmt.Errorf("list %s: %v", it, err)
			}
			if err := read(t, d2, it.kids, false, st); err != nil {
				return err
			}
			at++
		case it.kind == 'b' && act == 3:
			b, err := d.DecodeBytes()
			if err != nil || !bytes.Equal(b, it.b) {
				return fmt.Errorf("%s is read as %x, %v", it, b, err)
			}
			at++
		default:
			v, c := items[at].into(t)
			if err := d.Decode(v); err != nil {
				return fmt.Errorf("%s: %v", it, err)
			}
			if err := c(); err != nil {
				return err
			}
			at++
		}
	}
	if rapid.Bool().Draw(t, "end") {
		var b []byte
		if err := d.Decode(&b); !errors.Is(err, io.EOF) {
			return fmt.Errorf("after the last element: %x, %v", b, err)
		}
	}
	return nil
}

// dribble hands out its bytes in pieces of any size.
type dribble struct {
	b []byte
	n int
}

func (d *dribble) Read(p []byte) (int, error) {
	if len(d.b) == 0 {
		return 0, io.EOF
	}
	n := min(len(p), len(d.b), 1+d.n%5)
	d.n = (d.n*7 + 3) % 1009
	copy(p, d.b[:n])
	d.b = d.b[n:]
	return n, nil
}

// TestK01_Streams writes a sequence of elements through the encoder in every
// way it offers and reads it back in other ways, leaving lists unfinished.
func TestK01_Streams(t *testing.T) {
	for name, cd := range map[string]codec.Codec{"rlp": codec.RLP, "mp": codec.MP} {
		cd, rlp := cd, name == "rlp"
		t.Run(name, func(t *testing.T) {
			pbt.Check(t, 1500, "element sequences written by Encode/EncodeMulti/EncodeList/EncodeListOf and read by other calls, lists left unfinished; non-trivial = a list was left or several elements were read at once", func(t *rapid.T, c *pbt.Case) {
				var enc func(*item) []byte
				enc = func(it *item) []byte {
					if rlp {
						return it.ref()
					}
					return cd.MustMarshalToBytes(it.value())
				}
				var bind func(*item)
				bind = func(it *item) {
					it.enc = enc
					for _, k := range it.kids {
						bind(k)
					}
				}
				var items []*item
				for n := rapid.IntRange(1, 5).Draw(t, "items"); n > 0; n-- {
					it := genItem(t, 3)
					bind(it)
					items = append(items, it)
				}
				c.Key("%s %v", name, items)
				var buf bytes.Buffer
				e := cd.NewEncoder(&buf)
				var want []byte
				for _, it := range items {
					if err := e.Encode(it.value()); err != nil {
						t.Fatalf("%v", err)
					}
					want = append(want, enc(it)...)
					if buf.Len() != len(want) {
						t.Fatalf("%d bytes are written after %s, expected %d", buf.Len(), it, len(want))
					}
				}
				if !bytes.Equal(buf.Bytes(), want) {
					t.Fatalf("the sequence is written as %x, its elements as %x", buf.Bytes(), want)
				}
				again := []byte("old content")
				if err := cd.NewEncoderBytes(&again).Encode(items[0].value()); err != nil || !bytes.Equal(again, enc(items[0])) {
					t.Fatalf("written to bytes: %x, %v; expected %x", again, err, enc(items[0]))
				}
				var r io.Reader = bytes.NewReader(want)
				if rapid.Bool().Draw(t, "pieces") {
					r = &dribble{b: want, n: rapid.IntRange(0, 99).Draw(t, "seed")}
				}
				d, ok := cd.NewDecoder(r).(codec.Decoder)
				if !ok {
					t.Skip("no stream decoder")
				}
				st := &streamStats{}
				if err := read(t, d, items, true, st); err != nil {
					t.Fatalf("%v", err)
				}
				c.NonTrivial(st.left > 0 || st.multi > 0)
				if st.left > 0 {
					c.Label("list left unfinished")
				}
				if st.past > 0 {
					c.Label("read past the end")
				}
			})
		})
	}
}
