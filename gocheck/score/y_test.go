package score

import (
	"bytes"
	"encoding/base64"
	"fmt"
	"math/big"
	"sort"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"verif/gocheck/fake"
	"verif/gocheck/jvm"
	"verif/gocheck/pbt"
)

// Checks of the Python library of pyscore.

func pyLib(t *rapid.T, what, name string, args ...interface{}) interface{} {
	r, err := vm.Lib(name, args...)
	if err != nil {
		t.Fatalf("%s: %v", what, err)
	}
	return r
}

func encBig(n *big.Int) []byte {
	// two's complement, shortest
	var b []byte
	if n.Sign() >= 0 {
		b = n.Bytes()
		if len(b) == 0 || b[0] >= 0x80 {
			b = append([]byte{0}, b...)
		}
	} else {
		k := new(big.Int).Not(n).BitLen()/8 + 1
		b = new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), uint(8*k)), n).Bytes()
	}
	return fake.EncBytes(b)
}

func drawLen(t *rapid.T, label string) int {
	switch pbt.Pick(t, label+"k", 10) {
	case 0:
		return rapid.IntRange(54, 57).Draw(t, label)
	case 1:
		return rapid.IntRange(250, 260).Draw(t, label)
	case 2:
		return rapid.IntRange(65530, 65540).Draw(t, label) / (1 + 40*pbt.Pick(t, label+"s", 3))
	default:
		return rapid.IntRange(0, 40).Draw(t, label)
	}
}

func drawBytes(t *rapid.T, label string) []byte {
	n := drawLen(t, label)
	if n > 60 {
		return bytes.Repeat([]byte{byte(n)}, n)
	}
	return rapid.SliceOfN(rapid.Byte(), n, n).Draw(t, label+"b")
}

// drawValue draws a value with its encoding and type.
func drawValue(t *rapid.T, depth int) (v interface{}, enc []byte, typ []interface{}) {
	k := pbt.Pick(t, "kind", 9)
	if depth <= 0 {
		k %= 6
	}
	switch k {
	case 0:
		n := big.NewInt(rapid.Int64().Draw(t, "int"))
		return n, encBig(n), []interface{}{"int"}
	case 1:
		n := new(big.Int).Lsh(big.NewInt(oneOf[int64](t, "sign", 1, -1)), uint(rapid.IntRange(0, 300).Draw(t, "bits")))
		n.Add(n, big.NewInt(rapid.Int64Range(-1, 1).Draw(t, "off")))
		return n, encBig(n), []interface{}{"int"}
	case 2:
		s := rapid.StringN(0, 20, 60).Draw(t, "str")
		return s, fake.EncBytes([]byte(s)), []interface{}{"str"}
	case 3:
		return nil, fake.EncNil(), []interface{}{oneOf(t, "niltype", "int", "str", "bytes")}
	case 4, 5:
		b := drawBytes(t, "bytes")
		return b, fake.EncBytes(b), []interface{}{"bytes"}
	case 6: // a list of one kind
		var vs []interface{}
		var es [][]byte
		vs = []interface{}{}
		for i := rapid.IntRange(0, 6).Draw(t, "n"); i > 0; i-- {
			b := drawBytes(t, "item")
			vs, es = append(vs, b), append(es, fake.EncBytes(b))
		}
		return vs, fake.EncList(es...), []interface{}{"of", []interface{}{"bytes"}}
	default:
		vs, ts := []interface{}{}, []interface{}{"rec"}
		var es [][]byte
		for i := rapid.IntRange(0, 5).Draw(t, "fields"); i > 0; i-- {
			x, e, ty := drawValue(t, depth-1)
			vs, es, ts = append(vs, x), append(es, e), append(ts, ty)
		}
		return vs, fake.EncList(es...), ts
	}
}

func sameValue(a, b interface{}) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case *big.Int:
		y, ok := b.(*big.Int)
		return ok && x.Cmp(y) == 0
	case []byte:
		y, ok := b.([]byte)
		return ok && bytes.Equal(x, y)
	case []interface{}:
		y, ok := b.([]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameValue(x[i], y[i]) {
				return false
			}
		}
		return true
	}
	return a == b
}

func short(x interface{}) string {
	s := fmt.Sprintf("%x", x)
	if len(s) > 200 {
		s = s[:200] + "..."
	}
	return s
}

func TestY02_Codec(t *testing.T) {
	pbt.Check(t, 400, "a value within a list, or more than 55 bytes",
		func(t *rapid.T, c *pbt.Case) {
			v, enc, typ := drawValue(t, 3)
			got := pyLib(t, "rlp_encode", "rlp.encode", v).([]byte)
			if !bytes.Equal(got, enc) {
				t.Fatalf("the encoding of %s is %s for %s", short(v), short(got), short(enc))
			}
			if d := pyLib(t, "rlp_decode", "rlp.decode", enc, typ); !sameValue(v, d) {
				t.Fatalf("%s decodes as %s", short(v), short(d))
			}
			// what is cut short or has something behind it is refused
			if n := len(enc); n > 1 {
				cut := enc[:rapid.IntRange(0, n-1).Draw(t, "cut")]
				if d, err := vm.Lib("rlp.decode", cut, typ); err == nil {
					t.Fatalf("%d of %d bytes decode as %s", len(cut), n, short(d))
				}
			}
			if d, err := vm.Lib("rlp.decode", append(append([]byte{}, enc...), byte(rapid.IntRange(0, 255).Draw(t, "more"))), typ); err == nil {
				t.Fatalf("an encoding and another byte decode as %s", short(d))
			}
			c.Key("%x", enc)
			c.NonTrivial(typ[0] == "rec" && len(typ) > 1 || len(enc) > 56)
		})
}

func TestY02_Base64(t *testing.T) {
	pbt.Check(t, 300, "bytes whose number is no multiple of 3", func(t *rapid.T, c *pbt.Case) {
		b := rapid.SliceOfN(rapid.Byte(), 0, 70).Draw(t, "b")
		want := base64.URLEncoding.EncodeToString(b)
		if s := pyLib(t, "encode", "base64.encode", b); s != want {
			t.Fatalf("%x is encoded as %v for %s", b, s, want)
		}
		for _, s := range []string{want, strings.TrimRight(want, "=")} {
			if d := pyLib(t, "decode "+s, "base64.decode", s); !sameValue(b, d) {
				t.Fatalf("%q decodes as %x for %x", s, d, b)
			}
		}
		if len(want) > 0 {
			bad := []byte(want)
			i := pbt.Pick(t, "at", len(strings.TrimRight(want, "=")))
			bad[i] = oneOf[byte](t, "char", '+', '/', ' ', '.', '\n', '~', '*')
			if d, err := vm.Lib("base64.decode", string(bad)); err == nil {
				t.Fatalf("%q decodes as %x", bad, d)
			}
		}
		c.Key("%x", b)
		c.NonTrivial(len(b)%3 != 0)
	})
}

func TestY02_Address(t *testing.T) {
	word := rapid.StringMatching(`[0-9a-zA-Z_-]{0,8}`)
	pbt.Check(t, 200, "a network with a network identifier", func(t *rapid.T, c *pbt.Case) {
		proto := oneOf(t, "proto", "btp", "btp", "btp", "x", "")
		nid := word.Draw(t, "nid")
		if pct(t, "dots", 20) {
			nid += "." + word.Draw(t, "nid2")
		}
		chain := word.Draw(t, "chain")
		contract := rapid.StringMatching(`[0-9a-zA-Z]{0,42}`).Draw(t, "contract")
		net := chain
		if nid != "" {
			net = nid + "." + chain
		}
		s := proto + "://" + net + "/" + contract
		c.Key("%s", s)
		r, err := vm.Lib("address", s)
		if strings.LastIndex(net, ".") == 0 {
			if err == nil {
				t.Fatalf("%q is accepted", s)
			}
			return
		}
		if err != nil {
			t.Fatalf("%q is refused: %v", s, err)
		}
		valid := proto != "" && net != "" && contract != ""
		want := []interface{}{proto, net, nid, chain, contract, s, valid, true, true}
		if !sameValue(want, r) {
			t.Fatalf("%q gives %v for %v", s, r, want)
		}
		c.NonTrivial(nid != "")
	})
}

func TestY02_Accumulator(t *testing.T) {
	pbt.Check(t, 60, "more than three hashes with a witness of more than one hash", func(t *rapid.T, c *pbt.Case) {
		offset := oneOf[int64](t, "offset", 0, 0, 1, 5, 8, 1000)
		cache := int64(0)
		if pct(t, "cached", 40) {
			cache = int64(rapid.IntRange(1, 6).Draw(t, "cache"))
		}
		newer := pct(t, "newer", 40)
		n := rapid.IntRange(1, 20).Draw(t, "n")
		ops := []interface{}{[]interface{}{"offset", offset}, []interface{}{"cache", cache}, []interface{}{"newer", newer}}
		var leaves [][]byte
		for i := 0; i < n; i++ {
			h := sha([]byte(fmt.Sprint("leaf", i, pbt.Pick(t, "salt", 3))))
			leaves = append(leaves, h)
			ops = append(ops, []interface{}{"add", h})
			if pct(t, "reload", 30) {
				ops = append(ops, []interface{}{"reload"})
			}
		}
		ops = append(ops, []interface{}{"status"})
		r := pyLib(t, "add", "mta", nil, ops).([]interface{})
		state := r[0].([]byte)
		if st := r[1].([]interface{})[0]; !sameValue([]interface{}{big.NewInt(offset + int64(n)), big.NewInt(offset)}, st) {
			t.Fatalf("height and offset %v after %d hashes from %d", st, n, offset)
		}
		// later leaves, for witnesses of a later accumulator
		all := append([][]byte{}, leaves...)
		for i := 0; i < 8; i++ {
			all = append(all, sha([]byte(fmt.Sprint("later", i))))
		}
		deep := false
		for k := 0; k < 12; k++ {
			i := pbt.Pick(t, "leaf", n)
			at := n
			switch pbt.Pick(t, "at", 6) {
			case 0:
				at = i + 1 + pbt.Pick(t, "older", n-i)
			case 1:
				at = n + pbt.Pick(t, "later", 9)
			}
			w := witness(all[:at], i)
			h := leaves[i]
			height := offset + int64(i) + 1
			good := true
			what := "a true witness"
			switch pbt.Pick(t, "forge", 6) {
			case 0:
				h, good, what = sha([]byte("forged")), false, "another hash"
			case 1:
				if len(w) > 0 {
					w = append([][]byte{}, w...)
					w[pbt.Pick(t, "wi", len(w))] = sha([]byte("forged"))
					good, what = false, "a changed witness"
				}
			case 2:
				if len(w) > 0 {
					w, good, what = w[:len(w)-1], false, "a short witness"
				}
			case 3:
				w, good, what = append(append([][]byte{}, w...), sha([]byte("more"))), false, "a long witness"
			case 4: // another height; the position decides on which side the witness lies
				j := pbt.Pick(t, "other", n)
				if len(w) > 0 && j%(1<<len(w)) != i%(1<<len(w)) {
					height, good, what = offset+int64(j)+1, false, "another position"
				}
			}
			if len(w) > 1 {
				deep = true
			}
			var ws []interface{}
			for _, x := range w {
				ws = append(ws, x)
			}
			if ws == nil {
				ws = []interface{}{}
			}
			res := pyLib(t, "verify", "mta", state, []interface{}{[]interface{}{"verify", ws, h, height, offset + int64(at)}}).([]interface{})[1].([]interface{})[0].(string)
			d := fmt.Sprintf("%s of leaf %d for height %d of %d leaves (offset %d) at %d, cache %d, newer %v", what, i, height, n, offset, at, cache, newer)
			switch {
			case at == n:
				if (res == "ok") != good {
					t.Fatalf("%s: %s", d, res)
				}
			case at > n:
				// only the witness up to the root at that time counts
				if !newer {
					if res == "ok" {
						t.Fatalf("%s: %s", d, res)
					}
					break
				}
				short := len(witness(leaves, i))
				if good && res != "ok" {
					t.Fatalf("%s: %s", d, res)
				}
				if what == "another hash" && res == "ok" || what == "another position" && height == offset+int64(i)+1 && res == "ok" {
					t.Fatalf("%s (%d used): %s", d, short, res)
				}
			default: // old: decided by the cache of the last hashes
				in := false
				for k := len(leaves) - 1; k >= 0 && len(leaves)-k <= int(cache); k-- {
					in = in || bytes.Equal(leaves[k], h)
				}
				if in && what != "another position" && res != "ok" && int64(n-i-1)-1 < cache {
					t.Fatalf("%s: %s", d, res)
				}
				if !in && res == "ok" {
					t.Fatalf("%s: %s", d, res)
				}
			}
			c.Label("%s at %d: %s", what, sign3(at-n), res)
		}
		c.Key("%d %d %d %v %x", offset, n, cache, newer, state)
		c.NonTrivial(n > 3 && deep)
	})
}

func sign3(n int) int {
	switch {
	case n < 0:
		return -1
	case n > 0:
		return 1
	}
	return 0
}

func TestY02_Trie(t *testing.T) {
	pbt.Check(t, 150, "a trie with a branch and an extension", func(t *rapid.T, c *pbt.Case) {
		// keys none of which begins another
		n := rapid.IntRange(1, 8).Draw(t, "n")
		size := rapid.IntRange(1, 3).Draw(t, "keysize")
		seen := map[string]bool{}
		var kvs []kv
		for i := 0; i < n; i++ {
			k := make([]byte, size)
			for j := range k {
				k[j] = oneOf[byte](t, "kb", 0, 1, 0x10, 0x11, 0x7f, 0xff)
			}
			if seen[string(k)] {
				continue
			}
			seen[string(k)] = true
			kvs = append(kvs, kv{nibbles(k), append(bytes.Repeat([]byte{byte(i)}, 32), rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "val")...)})
		}
		i := pbt.Pick(t, "which", len(kvs))
		node, _ := trie(kvs, 0, nil)
		root := sha(node)
		_, proof := trie(kvs, 0, kvs[i].nib)
		key := func(nib []byte) []byte {
			var k []byte
			for j := 0; j < len(nib); j += 2 {
				k = append(k, nib[j]<<4|nib[j+1])
			}
			return k
		}
		list := func(p [][]byte) []interface{} {
			l := []interface{}{}
			for _, x := range p {
				l = append(l, x)
			}
			return l
		}
		if v := pyLib(t, "prove", "mpt", root, key(kvs[i].nib), list(proof)); !sameValue(kvs[i].val, v) {
			t.Fatalf("the proof of %x gives %x for %x", key(kvs[i].nib), v, kvs[i].val)
		}
		what := ""
		var p [][]byte
		k := key(kvs[i].nib)
		rt := root
		p = append(p, proof...)
		switch pbt.Pick(t, "forge", 5) {
		case 0:
			what = "a changed node"
			j := pbt.Pick(t, "node", len(p))
			b := append([]byte{}, p[j]...)
			b[pbt.Pick(t, "byte", len(b))] ^= byte(rapid.IntRange(1, 255).Draw(t, "bits"))
			p[j] = b
		case 1:
			what = "another root"
			rt = sha([]byte("forged"))
		case 2:
			what = "a node left out"
			j := pbt.Pick(t, "node", len(p))
			p = append(append([][]byte{}, p[:j]...), p[j+1:]...)
		case 3:
			what = "another key"
			k = make([]byte, size)
			for j := range k {
				k[j] = oneOf[byte](t, "ob", 0, 1, 0x10, 0x11, 0x7f, 0xff)
			}
			if bytes.Equal(k, key(kvs[i].nib)) {
				k[0] ^= 0x22
			}
		case 4:
			what = "a leaf of its own"
			p = [][]byte{fake.EncList(fake.EncBytes(hp(kvs[i].nib, true)), fake.EncBytes([]byte("forged")))}
		}
		if v, err := vm.Lib("mpt", rt, k, list(p)); err == nil {
			t.Fatalf("%s proves %x for %x", what, v, k)
		}
		c.Key("%x %d %s", root, i, what)
		c.NonTrivial(len(proof) > 2)
	})
}

// Containers: a store with transactions, each with new objects.

type mrec struct {
	f   map[string]interface{}
	sub map[string]jvm.Addr
	arr []string
}

func newRec() *mrec { return &mrec{f: map[string]interface{}{}, sub: map[string]jvm.Addr{}} }

var recDefaults = map[string]interface{}{"n": big.NewInt(7), "s": "default", "b": false, "y": []byte{}, "a": jvm.Addr("cx" + strings.Repeat("05", 20))}

func (r *mrec) get(k string) interface{} {
	if v, ok := r.f[k]; ok {
		return v
	}
	return recDefaults[k]
}

func TestY03(t *testing.T) {
	keys := []string{"a", "b", "a|b", "key1", "btp://0x1.icon/cx1"}
	pbt.Check(t, 120, "a record with nested entries removed, and a key of one letter used", func(t *rapid.T, c *pbt.Case) {
		m := map[string]string{}
		recs := map[string]*mrec{}
		top := newRec()
		var removed, one bool
		first := true
		sorted := func(l []string) []interface{} {
			sort.Strings(l)
			o := []interface{}{}
			for _, x := range l {
				o = append(o, x)
			}
			return o
		}
		for x := rapid.IntRange(2, 8).Draw(t, "txs"); x > 0; x-- {
			var ops, want []interface{}
			var names []string
			op := func(w interface{}, a ...interface{}) {
				ops = append(ops, a)
				if w != nil {
					want = append(want, w)
					names = append(names, fmt.Sprint(a...))
				}
			}
			ask := func(v interface{}) interface{} {
				if v == nil {
					return "NIL"
				}
				return v
			}
			value := func(k string) interface{} {
				switch k {
				case "n":
					return big.NewInt(oneOf(t, "nv", int64(0), 1, -1, 127, 128, -128, -129, 1<<40, -(1 << 40)))
				case "s":
					return oneOf(t, "sv", "", "x", "héllo", "default")
				case "b":
					return rapid.Bool().Draw(t, "bv")
				case "y":
					return oneOf(t, "yv", []byte{}, []byte{0}, []byte{1, 2, 3})
				}
				return jvm.Addr(oneOf(t, "av", jvm.HX(3), jvm.CX(4)))
			}
			field := func() string { return oneOf(t, "field", "n", "s", "b", "y", "a") }
			for i := rapid.IntRange(1, 24).Draw(t, "ops"); i > 0; i-- {
				k := oneOf(t, "key", keys...)
				r := recs[k]
				switch o := pbt.Pick(t, "op", 20); {
				case o < 3:
					v := oneOf(t, "val", "v", "", "long value, with a comma")
					m[k] = v
					one = one || len(k) == 1
					op(nil, "put", k, v)
				case o < 5:
					delete(m, k)
					op(nil, "del", k)
				case o < 6:
					_, ok := m[k]
					op(ok, "has", k)
				case o < 7:
					if v, ok := m[k]; ok {
						op(ask(v), "get", k)
					} else {
						op("NIL", "get", k)
					}
				case o < 8:
					var l []string
					for k := range m {
						l = append(l, k)
					}
					op(sorted(l), "keys")
				case o < 9:
					f := field()
					v := value(f)
					top.f[f] = v
					op(nil, "tset", f, v)
				case o < 10:
					f := field()
					op(top.get(f), "tget", f)
				case o < 11:
					var l []string
					for k := range recs {
						l = append(l, k)
					}
					op(sorted(l), "rkeys")
				case r == nil:
					recs[k] = newRec()
					one = one || len(k) == 1
					op(nil, "rput", k)
				case o < 13:
					f := field()
					v := value(f)
					r.f[f] = v
					op(nil, "rset", k, f, v)
				case o < 14:
					f := field()
					op(r.get(f), "rget", k, f)
				case o < 16:
					s := oneOf(t, "sub", keys...)
					a := jvm.HX(pbt.Pick(t, "who", 5))
					r.sub[s] = a
					op(nil, "sset", k, s, a)
				case o < 17:
					if pct(t, "sdel", 50) {
						s := oneOf(t, "sub", keys...)
						delete(r.sub, s)
						op(nil, "sdel", k, s)
					} else {
						var l []string
						for k := range r.sub {
							l = append(l, k)
						}
						op(sorted(l), "skeys", k)
						for k2, v := range r.sub {
							if k2 == "a" || k2 == "key1" {
								op(v, "sget", k, k2)
							}
						}
					}
				case o < 18:
					v := oneOf(t, "arr", "p", "q", "r")
					switch pbt.Pick(t, "aop", 3) {
					case 0:
						in := false
						for i, x := range r.arr {
							if x == v {
								r.arr = append(append([]string{}, r.arr[:i]...), r.arr[i+1:]...)
								in = true
								break
							}
						}
						op(in, "adel", k, v)
					case 1:
						op(sorted(append([]string{}, r.arr...)), "aall", k)
					default:
						r.arr = append(r.arr, v)
						op(nil, "aput", k, v)
					}
				default:
					removed = removed || len(r.sub) > 0
					delete(recs, k)
					op(nil, "rdel", k)
				}
			}
			got := pyLib(t, fmt.Sprint("transaction ", ops), "container", first, []interface{}{ops}).([]interface{})
			first = false
			if len(got) != len(want) {
				t.Fatalf("%d answers for %d", len(got), len(want))
			}
			for i := range want {
				g := got[i]
				if g == nil {
					g = "NIL"
				}
				if b, ok := want[i].(bool); ok {
					if n, isn := g.(*big.Int); isn {
						g = n.Sign() != 0
					}
					if g != b {
						t.Fatalf("%s gives %v for %v", names[i], g, b)
					}
					continue
				}
				if !sameValue(want[i], g) {
					t.Fatalf("%s gives %v for %v, in the transaction %v", names[i], g, want[i], ops)
				}
			}
			c.Key("%v", ops)
		}
		c.NonTrivial(removed && one)
	})
}
