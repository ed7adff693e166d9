package codec

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/big"
	"reflect"
	"runtime"
	"strings"
	"testing"

	ethrlp "github.com/ethereum/go-ethereum/rlp"
	"github.com/icon-project/btp/common"
	"github.com/icon-project/btp/common/codec"
	"pgregory.net/rapid"

	"verif/gocheck/pbt"
)

func describe(v reflect.Value) string {
	s := fmt.Sprintf("%s = %+v", v.Type(), v.Interface())
	return s
}

// K01: value -> bytes -> value for every supported type and value; the bytes
// are the documented ones; nothing after the value is consumed.
func TestK01_RoundTripRLP(t *testing.T) {
	pbt.Check(t, 6000, "random supported Go type (depth<=3, nullable/struct/map/array/pointer) with a random value; non-trivial = contains a composite and encodes to >=3 bytes", func(t *rapid.T, c *pbt.Case) {
		ty := genType(t, 3, true)
		v := genValue(t, ty)
		tail := rapid.SliceOfN(rapid.Byte(), 0, 5).Draw(t, "tail")
		want := refEncode(v)
		c.Key("%s enc=%x tail=%x", ty, want, tail)
		c.NonTrivial(len(want) >= 3 && ty.Kind() > reflect.Complex128 && ty.Kind() != reflect.String)
		got, err := codec.RLP.MarshalToBytes(v.Interface())
		if err != nil {
			t.Fatalf("encode %s: %v", describe(v), err)
		}
		if !bytes.Equal(got, want) {
			t.Fatalf("encode %s: got %x want %x", describe(v), got, want)
		}
		p := reflect.New(ty)
		p.Elem().Set(v)
		got2, err := codec.RLP.MarshalToBytes(p.Interface())
		if err != nil || !bytes.Equal(got2, want) {
			t.Fatalf("encode through a pointer %s: got %x,%v want %x", describe(v), got2, err, want)
		}
		if len(want) > 55 {
			c.Label("long")
		}
		var dst []byte
		if err := codec.RLP.NewEncoderBytes(&dst).Encode(v.Interface()); err != nil || !bytes.Equal(dst, want) {
			t.Fatalf("NewEncoderBytes: %x,%v want %x", dst, err, want)
		}
		in := append(append([]byte{}, got...), tail...)
		out := reflect.New(ty)
		kept := dirty(t, out.Elem())
		isNil := bytes.Equal(want, refNil) && ty != bytesType
		rest, err := codec.RLP.UnmarshalFromBytes(in, out.Interface())
		if isNil && ty.Kind() == reflect.Ptr {
			// a top-level nil pointer is reported as "nil value"
			if err == nil && !out.Elem().IsNil() {
				t.Fatalf("nil pointer decoded as %s", describe(out.Elem()))
			}
			return
		}
		if err != nil {
			t.Fatalf("decode %x as %s: %v", in, ty, err)
		}
		if !reflect.DeepEqual(out.Elem().Interface(), v.Interface()) {
			t.Fatalf("decode %x as %s: got %+v want %+v", in, ty, out.Elem().Interface(), v.Interface())
		}
		if !bytes.Equal(rest, tail) {
			t.Fatalf("decode %x as %s: remainder %x want %x", in, ty, rest, tail)
		}
		kept(t)
		if !bytes.Equal(in[:len(got)], got) {
			t.Fatalf("decode modified its input")
		}
	})
}

// dirty makes the target of a decoding hold another value, which others may
// still refer to; what it returns checks that theirs was left alone.
func dirty(t *rapid.T, v reflect.Value) func(t *rapid.T) {
	if !rapid.Bool().Draw(t, "dirty") {
		return func(*rapid.T) {}
	}
	v.Set(genValue(t, v.Type()))
	other := reflect.New(v.Type()).Elem()
	other.Set(v)
	before := describe(other)
	return func(t *rapid.T) {
		if after := describe(other); after != before {
			t.Fatalf("decoding changed a value that was read before from %s to %s", before, after)
		}
	}
}

func TestK01_RoundTripMP(t *testing.T) {
	pbt.Check(t, 4000, "as RLP, with the msgpack codec", func(t *rapid.T, c *pbt.Case) {
		ty := genType(t, 3, true)
		v := genValue(t, ty)
		got, err := codec.MP.MarshalToBytes(v.Interface())
		c.Key("MP %s %x", ty, got)
		c.NonTrivial(len(got) >= 3 && ty.Kind() > reflect.Complex128 && ty.Kind() != reflect.String)
		if err != nil {
			t.Fatalf("encode %s: %v", describe(v), err)
		}
		got2, err := codec.MP.MarshalToBytes(v.Interface())
		if err != nil || !bytes.Equal(got, got2) {
			t.Fatalf("encoding is not deterministic: %x %x", got, got2)
		}
		out := reflect.New(ty)
		kept := dirty(t, out.Elem())
		_, err = codec.MP.UnmarshalFromBytes(got, out.Interface())
		if len(got) == 1 && got[0] == 0xc0 && ty.Kind() == reflect.Ptr {
			return
		}
		if err != nil {
			t.Fatalf("decode %x as %s: %v", got, ty, err)
		}
		if !reflect.DeepEqual(out.Elem().Interface(), v.Interface()) {
			t.Fatalf("decode %x as %s: got %+v want %+v", got, ty, out.Elem().Interface(), v.Interface())
		}
		kept(t)
	})
}

type inner struct {
	A int64
	B []byte
}

type custom struct {
	H  common.HexInt
	HP *common.HexInt
	X  common.HexBytes
	Ad common.Address
	AP *common.Address
	inner
	I16 common.HexInt16
	U16 common.HexUint16
	I32 common.HexInt32
	U32 common.HexUint32
	I64 common.HexInt64
	U64 common.HexUint64
	L   []common.HexInt
	N   *inner
}

func genBig(t *rapid.T) *big.Int {
	b := rapid.SliceOfN(rapid.Byte(), 0, 34).Draw(t, "mag")
	i := new(big.Int).SetBytes(b)
	if rapid.Bool().Draw(t, "pow") {
		i = new(big.Int).Lsh(big.NewInt(1), uint(rapid.IntRange(0, 270).Draw(t, "exp")))
		if rapid.Bool().Draw(t, "dec") {
			i.Sub(i, big.NewInt(1))
		}
	}
	if rapid.Bool().Draw(t, "neg") {
		i.Neg(i)
	}
	return i
}

func TestK01_CustomTypes(t *testing.T) {
	pbt.Check(t, 2500, "struct of the custom-encoded types (HexInt*, HexBytes, Address, embedded unexported struct); all non-trivial", func(t *rapid.T, c *pbt.Case) {
		var v custom
		v.H.Set(genBig(t))
		if rapid.Bool().Draw(t, "hp") {
			v.HP = new(common.HexInt)
			v.HP.Set(genBig(t))
		}
		v.X = genBytes(t)
		mkAddr := func() *common.Address {
			b := make([]byte, 20)
			copy(b, rapid.SliceOfN(rapid.Byte(), 0, 20).Draw(t, "id"))
			if rapid.Bool().Draw(t, "cx") {
				return common.NewContractAddress(b)
			}
			return common.NewAccountAddress(b)
		}
		v.Ad = *mkAddr()
		if rapid.Bool().Draw(t, "ap") {
			v.AP = mkAddr()
		}
		v.A = rapid.Int64().Draw(t, "A")
		v.B = genBytes(t)
		v.I16.Value = rapid.Int16().Draw(t, "i16")
		v.U16.Value = rapid.Uint16().Draw(t, "u16")
		v.I32.Value = rapid.Int32().Draw(t, "i32")
		v.U32.Value = rapid.Uint32().Draw(t, "u32")
		v.I64.Value = rapid.Int64().Draw(t, "i64")
		v.U64.Value = rapid.Uint64().Draw(t, "u64")
		if n := rapid.IntRange(-1, 3).Draw(t, "L"); n >= 0 {
			v.L = make([]common.HexInt, n)
			for i := range v.L {
				v.L[i].Set(genBig(t))
			}
		}
		if rapid.Bool().Draw(t, "N") {
			v.N = &inner{A: rapid.Int64().Draw(t, "NA"), B: genBytes(t)}
		}
		c.Key("%x", codec.RLP.MustMarshalToBytes(&v))
		c.NonTrivial(true)
		// reference encoding
		addr := func(a *common.Address) []byte {
			if a == nil {
				return refNil
			}
			return refString(append([]byte{}, a.Bytes()...))
		}
		bi := func(i *big.Int) []byte { return refString(RefInt(i)) }
		by := func(b []byte) []byte {
			if b == nil {
				return refNil
			}
			return refString(b)
		}
		var items [][]byte
		items = append(items, bi(&v.H.Int))
		if v.HP == nil {
			items = append(items, refNil)
		} else {
			items = append(items, bi(&v.HP.Int))
		}
		items = append(items, by(v.X), addr(&v.Ad), addr(v.AP), bi(big.NewInt(v.A)), by(v.B),
			bi(big.NewInt(int64(v.I16.Value))), bi(big.NewInt(int64(v.U16.Value))), bi(big.NewInt(int64(v.I32.Value))),
			bi(big.NewInt(int64(v.U32.Value))), bi(big.NewInt(v.I64.Value)), bi(new(big.Int).SetUint64(v.U64.Value)))
		if v.L == nil {
			items = append(items, refNil)
		} else {
			var l [][]byte
			for i := range v.L {
				l = append(l, bi(&v.L[i].Int))
			}
			items = append(items, refList(l...))
		}
		if v.N == nil {
			items = append(items, refNil)
		} else {
			items = append(items, refList(bi(big.NewInt(v.N.A)), by(v.N.B)))
		}
		want := refList(items...)
		got, err := codec.RLP.MarshalToBytes(&v)
		if err != nil || !bytes.Equal(got, want) {
			t.Fatalf("encode %+v: %x,%v want %x", v, got, err, want)
		}
		for name, cd := range map[string]codec.Codec{"RLP": codec.RLP, "MP": codec.MP} {
			b, err := cd.MarshalToBytes(&v)
			if err != nil {
				t.Fatalf("%s encode: %v", name, err)
			}
			var o custom
			if _, err := cd.UnmarshalFromBytes(b, &o); err != nil {
				t.Fatalf("%s decode %x: %v", name, b, err)
			}
			same := o.H.Cmp(&v.H.Int) == 0 && (o.HP == nil) == (v.HP == nil) && (o.HP == nil || o.HP.Cmp(&v.HP.Int) == 0) &&
				bytes.Equal(o.X, v.X) && (o.X == nil) == (v.X == nil) && o.Ad == v.Ad && (o.AP == nil) == (v.AP == nil) &&
				(o.AP == nil || *o.AP == *v.AP) && o.A == v.A && bytes.Equal(o.B, v.B) && o.I16 == v.I16 && o.U16 == v.U16 &&
				o.I32 == v.I32 && o.U32 == v.U32 && o.I64 == v.I64 && o.U64 == v.U64 && len(o.L) == len(v.L) && (o.L == nil) == (v.L == nil) &&
				reflect.DeepEqual(o.N, v.N)
			for i := range v.L {
				same = same && o.L[i].Cmp(&v.L[i].Int) == 0
			}
			if !same {
				t.Fatalf("%s round trip: %+v -> %x -> %+v", name, v, b, o)
			}
		}
	})
}

// Differential against go-ethereum's RLP on the part of the format they share.
type tree struct {
	leaf []byte
	kids []tree
	list bool
}

func genTree(t *rapid.T, depth int) tree {
	if depth == 0 || rapid.IntRange(0, 2).Draw(t, "leaf") == 0 {
		b := genBytes(t)
		if b == nil {
			b = []byte{}
		}
		return tree{leaf: b}
	}
	n := rapid.IntRange(0, 4).Draw(t, "n")
	tr := tree{list: true}
	for i := 0; i < n; i++ {
		tr.kids = append(tr.kids, genTree(t, depth-1))
	}
	return tr
}

func (tr tree) encode(e codec.Encoder) error {
	if !tr.list {
		return e.Encode(tr.leaf)
	}
	e2, err := e.EncodeList()
	if err != nil {
		return err
	}
	for _, k := range tr.kids {
		if err := k.encode(e2); err != nil {
			return err
		}
	}
	return nil
}

func (tr tree) RLPEncodeSelf(e codec.Encoder) error { return tr.encode(e) }

func (tr tree) iface() interface{} {
	if !tr.list {
		return tr.leaf
	}
	l := make([]interface{}, 0)
	for _, k := range tr.kids {
		l = append(l, k.iface())
	}
	return l
}

func (tr tree) check(d codec.Decoder) error {
	if !tr.list {
		b, err := d.DecodeBytes()
		if err != nil {
			return err
		}
		if !bytes.Equal(b, tr.leaf) {
			return fmt.Errorf("leaf %x want %x", b, tr.leaf)
		}
		return nil
	}
	d2, err := d.DecodeList()
	if err != nil {
		return err
	}
	for _, k := range tr.kids {
		if err := k.check(d2); err != nil {
			return err
		}
	}
	return nil
}

func (tr tree) String() string {
	if !tr.list {
		if len(tr.leaf) > 20 {
			return fmt.Sprintf("%x..%d", tr.leaf[:20], len(tr.leaf))
		}
		return fmt.Sprintf("%x", tr.leaf)
	}
	var s []string
	for _, k := range tr.kids {
		s = append(s, k.String())
	}
	return "[" + strings.Join(s, ",") + "]"
}

func TestK01_EthRLPDifferential(t *testing.T) {
	pbt.Check(t, 2500, "nested byte-string trees compared with go-ethereum/rlp; non-trivial = a list", func(t *rapid.T, c *pbt.Case) {
		tr := genTree(t, 4)
		c.Key("%s", tr)
		c.NonTrivial(tr.list)
		want, err := ethrlp.EncodeToBytes(tr.iface())
		if err != nil {
			t.Fatalf("reference: %v", err)
		}
		got, err := codec.RLP.MarshalToBytes(&tr)
		if err != nil || !bytes.Equal(got, want) {
			t.Fatalf("%s: got %x,%v want %x", tr, got, err, want)
		}
		d := codec.RLP.NewDecoder(bytes.NewReader(want)).(codec.Decoder)
		if err := tr.check(d); err != nil {
			t.Fatalf("%s: reading back %x: %v", tr, want, err)
		}
	})
}

// K02: hostile input.
func mutate(t *rapid.T, b []byte) []byte {
	b = append([]byte{}, b...)
	n := rapid.IntRange(1, 3).Draw(t, "muts")
	for i := 0; i < n; i++ {
		pos := 0
		if len(b) > 0 {
			pos = rapid.IntRange(0, len(b)-1).Draw(t, "pos")
		}
		switch rapid.IntRange(0, 4).Draw(t, "mut") {
		case 0:
			if len(b) > 0 {
				b[pos] = rapid.Byte().Draw(t, "byte")
			}
		case 1:
			b = b[:pos]
		case 2:
			b = append(b[:pos:pos], append(rapid.SliceOfN(rapid.Byte(), 1, 3).Draw(t, "ins"), b[pos:]...)...)
		case 3: // a size header claiming (almost) anything
			h := hugeHeader(t)
			b = append(b[:pos:pos], append(h, b[pos:]...)...)
		case 4:
			if len(b) > 0 {
				b = append(b[:pos:pos], b[pos+1:]...)
			}
		}
	}
	return b
}

func hugeHeader(t *rapid.T) []byte {
	if rapid.IntRange(0, 2).Draw(t, "edge") == 0 {
		// sizes around the limits of the integer types
		v := uint64(1)<<uint(rapid.SampledFrom([]int{8, 16, 31, 32, 63, 63}).Draw(t, "bits")) + uint64(rapid.IntRange(-2, 2).Draw(t, "off"))
		if rapid.IntRange(0, 5).Draw(t, "top") == 0 {
			v = ^uint64(0) - uint64(rapid.IntRange(0, 70).Draw(t, "below"))
		}
		h := []byte{byte(rapid.SampledFrom([]int{0xb7, 0xf7}).Draw(t, "base") + 8)}
		h = binary.BigEndian.AppendUint64(h, v)
		if rapid.Bool().Draw(t, "inlist") {
			// as the first element of a list
			h = append([]byte{0xc0 + byte(len(h)+rapid.IntRange(0, 20).Draw(t, "room"))}, h...)
		}
		return h
	}
	n := rapid.IntRange(1, 8).Draw(t, "szlen")
	base := rapid.SampledFrom([]int{0xb7, 0xf7}).Draw(t, "base")
	h := []byte{byte(base + n)}
	for i := 0; i < n; i++ {
		h = append(h, rapid.SampledFrom([]byte{0, 1, 0x7f, 0x80, 0xff}).Draw(t, "sz"))
	}
	return h
}

func hugeMP(t *rapid.T) []byte {
	code := rapid.SampledFrom([]byte{0xc4, 0xc5, 0xc6, 0xd9, 0xda, 0xdb, 0xdc, 0xdd, 0xde, 0xdf, 0xcb, 0xcf, 0xd3, 0xc9}).Draw(t, "code")
	h := []byte{code}
	for i := 0; i < 4; i++ {
		h = append(h, rapid.SampledFrom([]byte{0, 1, 0x7f, 0xff}).Draw(t, "sz"))
	}
	return h
}

const allocBase = 192 << 20

func TestK02_HostileInput(t *testing.T) {
	pbt.Check(t, 6000, "bytes decoded into a random type: mutated valid encodings, random bytes, headers with hostile sizes; non-trivial = derived from a valid encoding or carries a multi-byte size header", func(t *rapid.T, c *pbt.Case) {
		ty := genType(t, 3, true)
		mp := rapid.IntRange(0, 3).Draw(t, "codec") == 0
		cd := codec.Codec(codec.RLP)
		if mp {
			cd = codec.MP
		}
		var in []byte
		switch k := rapid.IntRange(0, 5).Draw(t, "src"); k {
		case 0:
			in = rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "raw")
		case 1:
			if mp {
				in = hugeMP(t)
			} else {
				in = hugeHeader(t)
			}
			in = append(in, rapid.SliceOfN(rapid.Byte(), 0, 20).Draw(t, "raw")...)
			c.NonTrivial(true)
		default:
			v := genValue(t, ty)
			b, err := cd.MarshalToBytes(v.Interface())
			if err != nil {
				t.Fatalf("encode: %v", err)
			}
			in = mutate(t, b)
			c.NonTrivial(true)
		}
		if len(in) > 4096 {
			in = in[:4096]
		}
		c.Key("%v %s <- %x", mp, ty, in)
		out := reflect.New(ty)
		var m0, m1 runtime.MemStats
		runtime.ReadMemStats(&m0)
		var err error
		var rest []byte
		if p := pbt.NoPanic(func() { rest, err = cd.UnmarshalFromBytes(in, out.Interface()) }); p != "" {
			t.Fatalf("decoding %x as %s: %s", in, ty, p)
		}
		runtime.ReadMemStats(&m1)
		if d := m1.TotalAlloc - m0.TotalAlloc; d > allocBase {
			t.Fatalf("decoding %d bytes (%x) as %s allocated %d bytes", len(in), in, ty, d)
		}
		if err != nil {
			c.Label("rejected")
			return
		}
		c.Label("accepted")
		if len(rest) > len(in) {
			t.Fatalf("remainder longer than the input")
		}
		// what was accepted is a value: it re-encodes and decodes to itself
		b, err := cd.MarshalToBytes(out.Elem().Interface())
		if err != nil {
			t.Fatalf("re-encoding %s: %v", describe(out.Elem()), err)
		}
		if ty.Kind() == reflect.Ptr && out.Elem().IsNil() {
			return
		}
		out2 := reflect.New(ty)
		if _, err := cd.UnmarshalFromBytes(b, out2.Interface()); err != nil {
			t.Fatalf("decoding the re-encoding %x of %s: %v", b, describe(out.Elem()), err)
		}
		if !reflect.DeepEqual(out2.Elem().Interface(), out.Elem().Interface()) {
			t.Fatalf("accepted %x as %s, whose re-encoding %x decodes to %s", in, describe(out.Elem()), b, describe(out2.Elem()))
		}
	})
}

func TestK02_TruncationRejected(t *testing.T) {
	pbt.Check(t, 3000, "strict prefixes of valid encodings; non-trivial = the encoding has >=3 bytes", func(t *rapid.T, c *pbt.Case) {
		ty := genType(t, 3, true)
		v := genValue(t, ty)
		cd := codec.Codec(codec.RLP)
		if rapid.IntRange(0, 3).Draw(t, "codec") == 0 {
			cd = codec.MP
		}
		b, err := cd.MarshalToBytes(v.Interface())
		if err != nil {
			t.Fatalf("encode: %v", err)
		}
		cut := rapid.IntRange(0, len(b)-1).Draw(t, "cut")
		c.Key("%s %x cut at %d", ty, b, cut)
		c.NonTrivial(len(b) >= 3)
		out := reflect.New(ty)
		if p := pbt.NoPanic(func() { _, err = cd.UnmarshalFromBytes(b[:cut], out.Interface()) }); p != "" {
			t.Fatalf("decoding %x as %s: %s", b[:cut], ty, p)
		}
		if err == nil {
			t.Fatalf("the first %d of the %d bytes %x were accepted as %s", cut, len(b), b, describe(out.Elem()))
		}
	})
}

// TestK02_Shape decodes lists whose number of elements does not fit the target.
func TestK02_Shape(t *testing.T) {
	pbt.Check(t, 3000, "lists decoded as maps and by DecodeListOf/DecodeMulti; non-trivial = the number of elements does not fit", func(t *rapid.T, c *pbt.Case) {
		var body []byte
		n := rapid.IntRange(0, 7).Draw(t, "n")
		nilAt := -1
		if n > 0 && pbt.Pct(t, "nil", 25) {
			nilAt = rapid.IntRange(0, n-1).Draw(t, "nilAt")
		}
		for i := 0; i < n; i++ {
			if i == nilAt {
				body = append(body, refNil...)
			} else {
				body = append(body, byte(i+1))
			}
		}
		in := append([]byte{0xc0 + byte(len(body))}, body...)
		switch how := rapid.SampledFrom([]string{"map", "listof", "multi"}).Draw(t, "how"); how {
		case "map":
			bad := n%2 != 0 || nilAt >= 0 && nilAt%2 == 0
			c.Key("map %x", in)
			c.NonTrivial(bad)
			var m map[uint8]uint8
			_, err := codec.RLP.UnmarshalFromBytes(in, &m)
			if (err != nil) != bad {
				t.Fatalf("the list %x of %d elements as a map: %v, %v", in, n, m, err)
			}
			if err == nil && len(m) != n/2 {
				t.Fatalf("the list %x of %d elements became the map %v", in, n, m)
			}
		default:
			k := rapid.IntRange(0, 8).Draw(t, "k")
			vals := make([]uint8, k)
			var ps []interface{}
			for i := range vals {
				vals[i] = 99
				ps = append(ps, &vals[i])
			}
			c.Key("%s %x into %d", how, in, k)
			c.NonTrivial(k > n)
			d := codec.RLP.NewDecoder(bytes.NewReader(in)).(codec.Decoder)
			var err error
			got := min(k, n)
			if how == "listof" {
				if err = d.DecodeListOf(ps...); (err != nil) != (k > n) {
					t.Fatalf("reading %d elements of the list %x: %v", k, in, err)
				}
			} else {
				d2, e := d.DecodeList()
				if e != nil {
					t.Fatalf("%v", e)
				}
				var cnt int
				if cnt, err = d2.DecodeMulti(ps...); (err != nil) != (k > n) || cnt != got {
					t.Fatalf("reading %d elements of the list %x: %d, %v", k, in, cnt, err)
				}
			}
			for i := 0; i < got; i++ {
				want := uint8(i + 1)
				if i == nilAt {
					want = 0
				}
				if vals[i] != want {
					t.Fatalf("element %d of %x is read as %d", i, in, vals[i])
				}
			}
		}
	})
}
