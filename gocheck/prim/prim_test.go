package prim

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"reflect"
	"strings"
	"testing"

	"github.com/icon-project/btp/common"
	"github.com/icon-project/btp/common/codec"
	"github.com/icon-project/btp/common/crypto"
	"github.com/icon-project/btp/common/intconv"
	"pgregory.net/rapid"

	"verif/gocheck/pbt"
)

// refInt: minimal big-endian two's complement.
func refInt(i *big.Int) []byte {
	for n := 1; ; n++ {
		lim := new(big.Int).Lsh(big.NewInt(1), uint(8*n-1))
		if i.Cmp(lim) < 0 && new(big.Int).Neg(lim).Cmp(i) <= 0 {
			x := new(big.Int).Set(i)
			if x.Sign() < 0 {
				x.Add(x, new(big.Int).Lsh(big.NewInt(1), uint(8*n)))
			}
			b := x.Bytes()
			return append(make([]byte, n-len(b)), b...)
		}
	}
}

func refHex(i *big.Int) string {
	if i.Sign() < 0 {
		return "-0x" + new(big.Int).Neg(i).Text(16)
	}
	return "0x" + i.Text(16)
}

// edgy integers of up to max bits of magnitude
func genBig(t *rapid.T, max int) *big.Int {
	n := rapid.IntRange(0, max).Draw(t, "bits")
	i := new(big.Int)
	switch rapid.IntRange(0, 3).Draw(t, "shape") {
	case 0:
		i.Lsh(big.NewInt(1), uint(n))
	case 1:
		i.Sub(i.Lsh(big.NewInt(1), uint(n)), big.NewInt(1))
	case 2:
		i.Add(i.Lsh(big.NewInt(1), uint(n)), big.NewInt(int64(rapid.IntRange(-3, 3).Draw(t, "d"))))
	default:
		b := rapid.SliceOfN(rapid.Byte(), (n+7)/8, (n+7)/8).Draw(t, "mag")
		i.SetBytes(b)
	}
	if rapid.Bool().Draw(t, "neg") {
		i.Neg(i)
	}
	return i
}

func fits(i *big.Int, bits int, signed bool) bool {
	if signed {
		lim := new(big.Int).Lsh(big.NewInt(1), uint(bits-1))
		return i.Cmp(lim) < 0 && i.Cmp(new(big.Int).Neg(lim)) >= 0
	}
	return i.Sign() >= 0 && i.BitLen() <= bits
}

func TestK03_Integers(t *testing.T) {
	pbt.Check(t, 12000, "integer of 0..300 bits around powers of two, both signs, through the binary and hexadecimal forms; non-trivial = more than one byte", func(t *rapid.T, c *pbt.Case) {
		i := genBig(t, rapid.SampledFrom([]int{9, 66, 300}).Draw(t, "max"))
		orig := new(big.Int).Set(i)
		c.Key("%s", i)
		c.NonTrivial(i.BitLen() > 7)
		b := intconv.BigIntToBytes(i)
		if !bytes.Equal(b, refInt(i)) {
			t.Fatalf("BigIntToBytes(%s) = %x, want %x", i, b, refInt(i))
		}
		dirty := new(big.Int).SetInt64(rapid.Int64().Draw(t, "dirty"))
		if got := intconv.BigIntSetBytes(dirty, b); got.Cmp(i) != 0 || dirty.Cmp(i) != 0 {
			t.Fatalf("BigIntSetBytes(%x) = %s, want %s", b, got, i)
		}
		// redundant sign bytes do not change the value
		ext := append(bytes.Repeat([]byte{byte(int8(b[0]) >> 7)}, rapid.IntRange(0, 3).Draw(t, "ext")), b...)
		if got := intconv.BigIntSetBytes(new(big.Int), ext); got.Cmp(i) != 0 {
			t.Fatalf("BigIntSetBytes(%x) = %s, want %s", ext, got, i)
		}
		s := intconv.FormatBigInt(i)
		if s != refHex(i) {
			t.Fatalf("FormatBigInt(%s) = %q", i, s)
		}
		p := new(big.Int).SetInt64(77)
		if err := intconv.ParseBigInt(p, s); err != nil || p.Cmp(i) != 0 {
			t.Fatalf("ParseBigInt(%q) = %s, %v", s, p, err)
		}
		if i.Cmp(orig) != 0 {
			t.Fatalf("the argument was changed: %s -> %s", orig, i)
		}
		for _, bits := range []int{16, 32, 64} {
			got, err := intconv.ParseInt(s, bits)
			if fits(i, bits, true) != (err == nil) || err == nil && big.NewInt(got).Cmp(i) != 0 {
				t.Fatalf("ParseInt(%q,%d) = %d, %v", s, bits, got, err)
			}
			ugot, err := intconv.ParseUint(s, bits)
			if fits(i, bits, false) != (err == nil) || err == nil && new(big.Int).SetUint64(ugot).Cmp(i) != 0 {
				t.Fatalf("ParseUint(%q,%d) = %d, %v", s, bits, ugot, err)
			}
		}
		if fits(i, 64, true) {
			v := i.Int64()
			if b := intconv.Int64ToBytes(v); !bytes.Equal(b, refInt(i)) || intconv.BytesToInt64(b) != v {
				t.Fatalf("Int64ToBytes(%d) = %x -> %d", v, b, intconv.BytesToInt64(b))
			}
			if s := intconv.FormatInt(v); s != refHex(i) {
				t.Fatalf("FormatInt(%d) = %q", v, s)
			}
		}
		if fits(i, 64, true) && intconv.BytesToUint64(ext) != uint64(i.Int64()) {
			t.Fatalf("BytesToUint64(%x) = %d, want the 64 bits of %s", ext, intconv.BytesToUint64(ext), i)
		}
		if fits(i, 64, true) && intconv.BytesToInt64(ext) != i.Int64() {
			t.Fatalf("BytesToInt64(%x) = %d, want %s", ext, intconv.BytesToInt64(ext), i)
		}
		if fits(i, 64, false) {
			v := i.Uint64()
			if b := intconv.Uint64ToBytes(v); !bytes.Equal(b, refInt(i)) || intconv.BytesToUint64(b) != v {
				t.Fatalf("Uint64ToBytes(%d) = %x -> %d", v, b, intconv.BytesToUint64(b))
			}
			if s := intconv.FormatUint(v); s != refHex(i) {
				t.Fatalf("FormatUint(%d) = %q", v, s)
			}
			sz := intconv.SizeToBytes(v)
			if intconv.BytesToSize(sz) != v || len(sz) > 1 && sz[0] == 0 || new(big.Int).SetBytes(sz).Cmp(i) != 0 {
				t.Fatalf("SizeToBytes(%d) = %x", v, sz)
			}
		}
	})
}

func jsonRoundTrip(t *rapid.T, in interface{}, out interface{}, want string) {
	b, err := json.Marshal(in)
	if err != nil {
		t.Fatalf("marshal %+v: %v", in, err)
	}
	if want != "" && string(b) != want {
		t.Fatalf("marshal %+v = %s, want %s", in, b, want)
	}
	if err := json.Unmarshal(b, out); err != nil {
		t.Fatalf("unmarshal %s: %v", b, err)
	}
	b2, err := json.Marshal(out)
	if err != nil || !bytes.Equal(b, b2) {
		t.Fatalf("round trip %s -> %s, %v", b, b2, err)
	}
}

func TestK03_HexTypes(t *testing.T) {
	pbt.Check(t, 8000, "HexInt and the sized HexInt types through JSON and RLP, into used receivers; non-trivial = out of range for some size or more than one byte", func(t *rapid.T, c *pbt.Case) {
		i := genBig(t, rapid.SampledFrom([]int{9, 17, 33, 66, 280}).Draw(t, "max"))
		c.Key("%s", i)
		c.NonTrivial(i.BitLen() > 7)
		s := fmt.Sprintf("%q", refHex(i))
		h := new(common.HexInt)
		h.Set(i)
		dirty := common.NewHexInt(rapid.Int64().Draw(t, "dirty"))
		jsonRoundTrip(t, h, dirty, s)
		if dirty.Cmp(i) != 0 {
			t.Fatalf("HexInt %s -> %s", i, dirty)
		}
		if h.String() != refHex(i) {
			t.Fatalf("HexInt(%s).String() = %s", i, h)
		}
		if !bytes.Equal(h.Bytes(), refInt(i)) {
			t.Fatalf("HexInt(%s).Bytes() = %x", i, h.Bytes())
		}
		cl := h.Clone()
		cl.Add(&cl.Int, big.NewInt(1))
		if h.Cmp(i) != 0 {
			t.Fatalf("changing a clone changed the original")
		}
		bare := i.String() // a JSON number
		if err := json.Unmarshal([]byte(bare), dirty); err != nil || dirty.Cmp(i) != 0 {
			t.Fatalf("HexInt from JSON number %s = %s, %v", bare, dirty, err)
		}
		check := func(name string, bits int, signed bool, v interface{}, get func() *big.Int, rlp bool) {
			err := json.Unmarshal([]byte(s), v)
			if (err == nil) != fits(i, bits, signed) {
				t.Fatalf("%s from %s: err=%v", name, s, err)
			}
			if err != nil {
				c.Label("out of range")
				return
			}
			if get().Cmp(i) != 0 {
				t.Fatalf("%s from %s = %s", name, s, get())
			}
			b, err := json.Marshal(v)
			if err != nil || string(b) != s {
				t.Fatalf("%s %s marshals as %s, %v", name, i, b, err)
			}
			enc, err := codec.RLP.MarshalToBytes(v)
			want := codec.RLP.MustMarshalToBytes(refInt(i))
			if err != nil || !bytes.Equal(enc, want) {
				t.Fatalf("%s %s as RLP: %x, %v want %x", name, i, enc, err, want)
			}
			nv := reflect.New(reflect.TypeOf(v).Elem())
			if _, err := codec.RLP.UnmarshalFromBytes(enc, nv.Interface()); err != nil || !reflect.DeepEqual(nv.Interface(), v) {
				t.Fatalf("%s RLP round trip: %v, %v", name, nv.Interface(), err)
			}
		}
		var i16 common.HexInt16
		var u16 common.HexUint16
		var i32 common.HexInt32
		var u32 common.HexUint32
		var i64 common.HexInt64
		var u64 common.HexUint64
		check("HexInt16", 16, true, &i16, func() *big.Int { return big.NewInt(int64(i16.Value)) }, true)
		check("HexUint16", 16, false, &u16, func() *big.Int { return big.NewInt(int64(u16.Value)) }, true)
		check("HexInt32", 32, true, &i32, func() *big.Int { return big.NewInt(int64(i32.Value)) }, true)
		check("HexUint32", 32, false, &u32, func() *big.Int { return big.NewInt(int64(u32.Value)) }, true)
		check("HexInt64", 64, true, &i64, func() *big.Int { return big.NewInt(i64.Value) }, true)
		check("HexUint64", 64, false, &u64, func() *big.Int { return new(big.Int).SetUint64(u64.Value) }, true)
	})
}

func TestK03_HexBytes(t *testing.T) {
	pbt.Check(t, 4000, "byte strings (nil and empty included) through HexBytes and RawHexBytes; non-trivial = at least 2 bytes", func(t *rapid.T, c *pbt.Case) {
		var b []byte
		if rapid.IntRange(0, 9).Draw(t, "nil") > 0 {
			b = rapid.SliceOfN(rapid.Byte(), 0, 70).Draw(t, "b")
			if b == nil {
				b = []byte{}
			}
		}
		c.Key("%x %v", b, b == nil)
		c.NonTrivial(len(b) > 1)
		hb := common.HexBytes(b)
		want := "null"
		wantRaw := "null"
		if b != nil {
			want = "\"0x" + hex.EncodeToString(b) + "\""
			wantRaw = "\"" + hex.EncodeToString(b) + "\""
		}
		o := common.HexBytes{9, 9}
		jsonRoundTrip(t, hb, &o, want)
		if !bytes.Equal(o, b) || (o == nil) != (b == nil) || !bytes.Equal(hb.Bytes(), b) || "\""+hb.String()+"\"" != want && want != "null" {
			t.Fatalf("HexBytes %x -> %x (%s)", b, o, hb)
		}
		ro := common.RawHexBytes{9, 9}
		jsonRoundTrip(t, common.RawHexBytes(b), &ro, wantRaw)
		if !bytes.Equal(ro, b) || (ro == nil) != (b == nil) {
			t.Fatalf("RawHexBytes %x -> %x", b, ro)
		}
		if b != nil {
			// no prefix and upper case are accepted as the same value
			var o2 common.HexBytes
			if err := json.Unmarshal([]byte(strings.ToUpper(wantRaw)), &o2); err != nil || !bytes.Equal(o2, b) {
				t.Fatalf("HexBytes from %s: %x, %v", wantRaw, o2, err)
			}
			var bad common.HexBytes
			if err := json.Unmarshal([]byte("\"0x"+hex.EncodeToString(b)+"g\""), &bad); err == nil {
				t.Fatalf("malformed hex accepted as %x", bad)
			}
			if err := json.Unmarshal([]byte("\"0x"+hex.EncodeToString(b)+"1\""), &bad); err == nil {
				t.Fatalf("odd-length hex accepted as %x", bad)
			}
		}
	})
}

func genID(t *rapid.T) []byte {
	b := make([]byte, 20)
	copy(b, rapid.SliceOfN(rapid.Byte(), 0, 20).Draw(t, "id"))
	if rapid.Bool().Draw(t, "high") {
		b[0] = 0xff
	}
	if rapid.Bool().Draw(t, "shift") {
		n := rapid.IntRange(0, 20).Draw(t, "by")
		b = append(make([]byte, n), b[:20-n]...)
	}
	return b
}

func TestK04_Address(t *testing.T) {
	pbt.Check(t, 6000, "account/contract addresses (ids with leading zeros, ff, short ids) through string, bytes, JSON and RLP, into fresh and used receivers; non-trivial = the id is not all zero", func(t *rapid.T, c *pbt.Case) {
		id := genID(t)
		cx := rapid.Bool().Draw(t, "cx")
		var used common.Address
		if rapid.Bool().Draw(t, "used") {
			used.SetTypeAndID(rapid.Bool().Draw(t, "ucx"), genID(t))
		}
		c.Key("%v %x used=%x", cx, id, used[:])
		c.NonTrivial(!bytes.Equal(id, make([]byte, 20)))
		a := common.NewAccountAddress(id)
		pre := "hx"
		if cx {
			a = common.NewContractAddress(id)
			pre = "cx"
		}
		if a.String() != pre+hex.EncodeToString(id) || a.IsContract() != cx || !bytes.Equal(a.ID(), id) {
			t.Fatalf("address of %v %x is %s", cx, id, a)
		}
		same := func(how string, b *common.Address, err error) {
			if err != nil {
				t.Fatalf("%s of %s: %v", how, a, err)
			}
			if !a.Equal(b) || !b.Equal(a) || *a != *b {
				t.Fatalf("%s of %s gives %s", how, a, b)
			}
		}
		b := used
		same("SetString", &b, b.SetString(a.String()))
		b = used
		same("SetBytes", &b, b.SetBytes(a.Bytes()))
		b = used
		js, err := json.Marshal(a)
		if err != nil || string(js) != fmt.Sprintf("%q", a.String()) {
			t.Fatalf("JSON of %s: %s, %v", a, js, err)
		}
		same("JSON", &b, json.Unmarshal(js, &b))
		b = used
		enc, err := codec.RLP.MarshalToBytes(a)
		if err != nil {
			t.Fatalf("RLP of %s: %v", a, err)
		}
		_, err = codec.RLP.UnmarshalFromBytes(enc, &b)
		same("RLP", &b, err)
		same("NewAddress", common.NewAddress(a.Bytes()), nil)
		// a short id is the id with leading zeros
		k := 0
		for k < 19 && id[k] == 0 {
			k++
		}
		b = used
		same("short id", &b, b.SetTypeAndID(cx, id[k:]))
		b = used
		same("short string", &b, b.SetString(pre+hex.EncodeToString(id[k:])))
		// digits of a text that are left out are leading zeros
		short := strings.TrimLeft(hex.EncodeToString(id), "0")
		if short == "" {
			short = "0"
		}
		b = used
		same("text without leading zeros", &b, b.SetString(pre+short))
		if !cx {
			b = used
			same("hexadecimal text", &b, b.SetString("0x"+hex.EncodeToString(id)))
			b = used
			same("text without prefix", &b, b.SetString(hex.EncodeToString(id)))
		}
		// one different byte is a different address
		m := *a
		p := rapid.IntRange(1, 20).Draw(t, "pos")
		m[p] ^= byte(rapid.IntRange(1, 255).Draw(t, "xor"))
		if a.Equal(&m) || m.Equal(a) || a.String() == m.String() {
			t.Fatalf("%s and %s are taken for equal", a, &m)
		}
		o := *a
		o[0] ^= 1
		if a.Equal(&o) || a.String() == o.String() {
			t.Fatalf("contract and account address are taken for equal")
		}
	})
}

func TestK04_AddressHostile(t *testing.T) {
	pbt.Check(t, 5000, "arbitrary bytes and strings as addresses never crash, and what is not an address prefix is rejected; non-trivial = rejected, or accepted with a value that survives its own string form", func(t *rapid.T, c *pbt.Case) {
		b := rapid.SliceOfN(rapid.Byte(), 0, 24).Draw(t, "b")
		if rapid.Bool().Draw(t, "typ") && len(b) > 0 {
			b[0] &= 1
		}
		s := rapid.OneOf(rapid.StringMatching("(hx|cx|0x|xx|h|)[0-9a-fA-F]{0,44}g?"), rapid.String()).Draw(t, "s")
		c.Key("%x %q", b, s)
		c.NonTrivial(true)
		var a common.Address
		var err error
		if p := pbt.NoPanic(func() { err = a.SetBytes(b) }); p != "" {
			t.Fatalf("SetBytes(%x): %s", b, p)
		}
		if err == nil {
			if len(b) == 0 || b[0] > 1 {
				t.Fatalf("SetBytes(%x) accepted as %s", b, &a)
			}
		}
		if p := pbt.NoPanic(func() { _, err = codec.RLP.UnmarshalFromBytes(codec.RLP.MustMarshalToBytes(b), &a) }); p != "" {
			t.Fatalf("RLP address %x: %s", b, p)
		}
		var a2 common.Address
		if p := pbt.NoPanic(func() { err = a2.SetString(s) }); p != "" {
			t.Fatalf("SetString(%q): %s", s, p)
		}
		if err == nil {
			c.Label("string accepted")
			var a3 common.Address
			if err := a3.SetString(a2.String()); err != nil || a3 != a2 {
				t.Fatalf("%q accepted as %s, which reads back as %s, %v", s, &a2, &a3, err)
			}
		}
	})
}

func TestK04_AddressOfKey(t *testing.T) {
	pbt.Check(t, 400, "addresses of random keys: last 20 bytes of SHA3-256 of the uncompressed point; all non-trivial", func(t *rapid.T, c *pbt.Case) {
		k := rapid.SliceOfN(rapid.Byte(), 32, 32).Draw(t, "key")
		sk, err := crypto.ParsePrivateKey(k)
		if err != nil {
			return
		}
		c.Key("%x", k)
		c.NonTrivial(true)
		pk := sk.PublicKey()
		a := common.NewAccountAddressFromPublicKey(pk)
		u := pk.SerializeUncompressed()
		h := crypto.SHA3Sum256(u[1:])
		if a.IsContract() || !bytes.Equal(a.ID(), h[12:]) {
			t.Fatalf("address of %x is %s", k, a)
		}
		pk2, err := crypto.ParsePublicKey(pk.SerializeCompressed())
		if err != nil || *common.NewAccountAddressFromPublicKey(pk2) != *a {
			t.Fatalf("the compressed public key has another address: %v", err)
		}
	})
}
