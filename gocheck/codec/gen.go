// Package codec checks github.com/icon-project/btp/common/codec.
package codec

import (
	"fmt"
	"math/big"
	"reflect"
	"sort"
	"strings"

	"pgregory.net/rapid"
)

var scalarTypes = []reflect.Type{
	reflect.TypeOf(false), reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)),
	reflect.TypeOf(uint64(0)), reflect.TypeOf(uint(0)), reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)),
	reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)), reflect.TypeOf(int(0)), reflect.TypeOf(""),
}
var keyTypes = []reflect.Type{
	reflect.TypeOf(""), reflect.TypeOf(int64(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(uint64(0)), reflect.TypeOf(uint32(0)),
}
var bytesType = reflect.TypeOf([]byte(nil))

// genType draws a Go type the codec supports. nullable=false excludes types
// whose nil value has its own encoding (a pointer to such a type would be
// ambiguous on the wire).
func genType(t *rapid.T, depth int, nullable bool) reflect.Type {
	hi := 9
	if depth <= 0 {
		hi = 4
	}
	switch k := rapid.IntRange(0, hi).Draw(t, "kind"); {
	case k <= 2:
		return rapid.SampledFrom(scalarTypes).Draw(t, "scalar")
	case k == 3 && nullable:
		return bytesType
	case k == 4:
		return reflect.ArrayOf(rapid.SampledFrom([]int{0, 1, 2, 20, 32, 56, 60}).Draw(t, "n"), reflect.TypeOf(byte(0)))
	case k == 5 && nullable:
		return reflect.SliceOf(genType(t, depth-1, true))
	case k == 6 && nullable:
		return reflect.MapOf(rapid.SampledFrom(keyTypes).Draw(t, "key"), genType(t, depth-1, true))
	case k == 7 && nullable:
		return reflect.PtrTo(genType(t, depth-1, false))
	case k == 8:
		return reflect.ArrayOf(rapid.IntRange(0, 3).Draw(t, "n"), genType(t, depth-1, true))
	default:
		n := rapid.IntRange(0, 4).Draw(t, "fields")
		fs := make([]reflect.StructField, n)
		for i := range fs {
			fs[i] = reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: genType(t, depth-1, true)}
		}
		return reflect.StructOf(fs)
	}
}

var lens = rapid.OneOf(rapid.IntRange(0, 4), rapid.SampledFrom([]int{1, 54, 55, 56, 57, 127, 128, 255, 256, 257}))

func genBytes(t *rapid.T) []byte {
	switch rapid.IntRange(0, 5).Draw(t, "bkind") {
	case 0:
		return nil
	case 1:
		return []byte{rapid.Byte().Draw(t, "b")}
	case 2:
		n := lens.Draw(t, "len")
		b := make([]byte, n)
		f := rapid.Byte().Draw(t, "fill")
		for i := range b {
			b[i] = f + byte(i)
		}
		return b
	case 3:
		if rapid.IntRange(0, 40).Draw(t, "big") == 0 {
			n := rapid.SampledFrom([]int{65535, 65536, 65537, 70000}).Draw(t, "len")
			b := make([]byte, n)
			for i := range b {
				b[i] = byte(i * 7)
			}
			return b
		}
		return []byte{}
	default:
		return rapid.SliceOfN(rapid.Byte(), 0, 12).Draw(t, "bytes")
	}
}

func bitsOf(v uint64, n int) uint64 {
	if n >= 64 {
		return v
	}
	return v & (1<<uint(n) - 1)
}

// drawBits draws an integer of a drawn bit length, so that all the size
// boundaries of the two's complement form are hit often.
func drawBits(t *rapid.T, max int) uint64 {
	n := rapid.IntRange(0, max).Draw(t, "bits")
	v := rapid.Uint64().Draw(t, "v")
	switch rapid.IntRange(0, 3).Draw(t, "edge") {
	case 0:
		if n == 0 {
			return 0
		}
		return uint64(1) << uint(n-1)
	case 1:
		return bitsOf(^uint64(0), n)
	}
	return bitsOf(v, n)
}

func genValue(t *rapid.T, ty reflect.Type) reflect.Value {
	v := reflect.New(ty).Elem()
	switch ty.Kind() {
	case reflect.Bool:
		v.SetBool(rapid.Bool().Draw(t, "bool"))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(drawBits(t, ty.Bits()))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		u := int64(drawBits(t, ty.Bits()-1))
		if rapid.Bool().Draw(t, "neg") {
			u = -u
			if rapid.Bool().Draw(t, "m1") {
				u = u - 1
			}
		}
		v.SetInt(u)
		if v.Int() != u {
			v.SetInt(0)
		}
	case reflect.String:
		if rapid.Bool().Draw(t, "sraw") {
			v.SetString(string(genBytes(t)))
		} else {
			v.SetString(rapid.String().Draw(t, "s"))
		}
	case reflect.Slice:
		if ty == bytesType {
			v.SetBytes(genBytes(t))
			break
		}
		n := rapid.IntRange(-1, 5).Draw(t, "n")
		if n < 0 {
			break
		}
		if rapid.IntRange(0, 15).Draw(t, "long") == 0 && ty.Elem().Kind() != reflect.Slice && ty.Elem().Kind() != reflect.Struct {
			n = rapid.IntRange(14, 40).Draw(t, "n2")
		}
		s := reflect.MakeSlice(ty, n, n)
		for i := 0; i < n; i++ {
			s.Index(i).Set(genValue(t, ty.Elem()))
		}
		v.Set(s)
	case reflect.Array:
		if ty.Elem().Kind() == reflect.Uint8 {
			f := rapid.Byte().Draw(t, "fill")
			for i := 0; i < ty.Len(); i++ {
				v.Index(i).SetUint(uint64(f + byte(i*i)))
			}
			break
		}
		for i := 0; i < ty.Len(); i++ {
			v.Index(i).Set(genValue(t, ty.Elem()))
		}
	case reflect.Map:
		n := rapid.IntRange(-1, 4).Draw(t, "n")
		if n < 0 {
			break
		}
		m := reflect.MakeMap(ty)
		for i := 0; i < n; i++ {
			m.SetMapIndex(genValue(t, ty.Key()), genValue(t, ty.Elem()))
		}
		v.Set(m)
	case reflect.Ptr:
		if rapid.Bool().Draw(t, "nil") {
			break
		}
		p := reflect.New(ty.Elem())
		p.Elem().Set(genValue(t, ty.Elem()))
		v.Set(p)
	case reflect.Struct:
		for i := 0; i < ty.NumField(); i++ {
			v.Field(i).Set(genValue(t, ty.Field(i).Type))
		}
	default:
		panic("genValue: " + ty.String())
	}
	return v
}

// ---- reference RLP encoder, written from the documented format:
// byte strings and lists as in Ethereum RLP, nil as F8 00, integers as minimal
// big-endian two's complement, bool as 00/01, struct as list of its fields in
// order, map as list of key, value, ... in ascending key order.

func refString(b []byte) []byte {
	if len(b) == 1 && b[0] < 0x80 {
		return []byte{b[0]}
	}
	return append(refHead(0x80, len(b)), b...)
}

func refHead(base byte, n int) []byte {
	if n <= 55 {
		return []byte{base + byte(n)}
	}
	s := big.NewInt(int64(n)).Bytes()
	return append([]byte{base + 55 + byte(len(s))}, s...)
}

func refList(items ...[]byte) []byte {
	var body []byte
	for _, i := range items {
		body = append(body, i...)
	}
	return append(refHead(0xc0, len(body)), body...)
}

var refNil = []byte{0xf8, 0x00}

// RefInt is the minimal big-endian two's complement representation.
func RefInt(i *big.Int) []byte {
	for n := 1; ; n++ {
		lim := new(big.Int).Lsh(big.NewInt(1), uint(8*n-1))
		if i.Cmp(lim) < 0 && new(big.Int).Neg(lim).Cmp(i) <= 0 {
			x := new(big.Int).Set(i)
			if x.Sign() < 0 {
				x.Add(x, new(big.Int).Lsh(big.NewInt(1), uint(8*n)))
			}
			b := x.Bytes()
			return append(make([]byte, n-len(b)), b...)
		}
	}
}

func refEncode(v reflect.Value) []byte {
	switch v.Kind() {
	case reflect.Bool:
		if v.Bool() {
			return []byte{1}
		}
		return []byte{0}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return refString(RefInt(new(big.Int).SetUint64(v.Uint())))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return refString(RefInt(big.NewInt(v.Int())))
	case reflect.String:
		return refString([]byte(v.String()))
	case reflect.Ptr:
		if v.IsNil() {
			return refNil
		}
		return refEncode(v.Elem())
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.IsNil() {
			return refNil
		}
		if v.Type().Elem().Kind() == reflect.Uint8 {
			b := make([]byte, v.Len())
			for i := range b {
				b[i] = byte(v.Index(i).Uint())
			}
			return refString(b)
		}
		var items [][]byte
		for i := 0; i < v.Len(); i++ {
			items = append(items, refEncode(v.Index(i)))
		}
		return refList(items...)
	case reflect.Struct:
		var items [][]byte
		for i := 0; i < v.NumField(); i++ {
			items = append(items, refEncode(v.Field(i)))
		}
		return refList(items...)
	case reflect.Map:
		if v.IsNil() {
			return refNil
		}
		keys := v.MapKeys()
		sort.Slice(keys, func(i, j int) bool {
			a, b := keys[i], keys[j]
			switch a.Kind() {
			case reflect.String:
				return strings.Compare(a.String(), b.String()) < 0
			case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
				return a.Int() < b.Int()
			}
			return a.Uint() < b.Uint()
		})
		var items [][]byte
		for _, k := range keys {
			items = append(items, refEncode(k), refEncode(v.MapIndex(k)))
		}
		return refList(items...)
	}
	panic("refEncode: " + v.Type().String())
}
