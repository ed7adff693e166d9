package icon

import (
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"net/http"
	"reflect"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/ethereum/go-ethereum/crypto"
	"github.com/gorilla/websocket"
	"golang.org/x/crypto/sha3"
	"pgregory.net/rapid"

	"github.com/icon-project/btp/chain/icon/client"
	"github.com/icon-project/btp/common"
	"github.com/icon-project/btp/common/jsonrpc"
	"github.com/icon-project/btp/common/types"
	"github.com/icon-project/btp/common/wallet"

	"verif/gocheck/fake"
	"verif/gocheck/pbt"
)

// ---- transaction hash ----

func escRef(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if strings.IndexByte(`\.{}[]`, s[i]) >= 0 {
			b.WriteByte('\\')
		}
		b.WriteByte(s[i])
	}
	return b.String()
}

// serRef is the ICON transaction serialisation, written from its definition.
func serRef(v interface{}) string {
	switch x := v.(type) {
	case nil:
		return `\0`
	case string:
		return escRef(x)
	case float64:
		return big.NewInt(int64(x)).String()
	case []interface{}:
		var parts []string
		for _, e := range x {
			parts = append(parts, serRef(e))
		}
		return "[" + strings.Join(parts, ".") + "]"
	case map[string]interface{}:
		return "{" + dictRef(x) + "}"
	}
	panic(fmt.Sprintf("%T", v))
}

func dictRef(m map[string]interface{}) string {
	var keys []string
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var parts []string
	for _, k := range keys {
		parts = append(parts, escRef(k)+"."+serRef(m[k]))
	}
	return strings.Join(parts, ".")
}

// genDoc makes a document of strings, nulls, lists and objects; keys and first
// list items are not empty (see DESIGN.md: the format drops the separator there).
func genDoc(t *rapid.T, depth int, first bool) interface{} {
	k := rapid.IntRange(0, 9).Draw(t, "dkind")
	if depth <= 0 && k > 5 {
		k = 3
	}
	switch {
	case k == 0:
		return nil
	case k <= 5:
		s := strings.ToValidUTF8(genText(t, "ds"), "?")
		if first && s == "" {
			s = "x"
		}
		return s
	case k <= 7:
		n := rapid.IntRange(0, 4).Draw(t, "dl")
		l := make([]interface{}, n)
		for i := range l {
			l[i] = genDoc(t, depth-1, i == 0)
		}
		return l
	default:
		return genDict(t, depth-1)
	}
}

func genDict(t *rapid.T, depth int) map[string]interface{} {
	n := rapid.IntRange(0, 4).Draw(t, "dm")
	m := map[string]interface{}{}
	for i := 0; i < n; i++ {
		k := strings.ToValidUTF8(genText(t, "dk"), "?")
		if rapid.IntRange(0, 4).Draw(t, "known") == 0 {
			// names that mean something at the top only
			k = rapid.SampledFrom([]string{"signature", "method", "params", "from", "txHash", "tx_hash"}).Draw(t, "kk")
		}
		if k == "" {
			k = "k"
		}
		m[k] = genDoc(t, depth, false)
	}
	return m
}

func depthOf(v interface{}) int {
	d := 0
	switch x := v.(type) {
	case []interface{}:
		for _, e := range x {
			if k := depthOf(e); k > d {
				d = k
			}
		}
		return d + 1
	case map[string]interface{}:
		for _, e := range x {
			if k := depthOf(e); k > d {
				d = k
			}
		}
		return d + 1
	}
	return 0
}

func TestI01_Serialize(t *testing.T) {
	pbt.Check(t, 2500, "the document is nested or has characters to escape", func(t *rapid.T, c *pbt.Case) {
		d := genDict(t, 3)
		js := mustJSON(d)
		want := dictRef(d)
		c.Key("%s", js)
		c.NonTrivial(depthOf(d) > 1 || strings.Contains(want, `\`))
		got, err := client.SerializeJSON(js, nil, nil)
		if err != nil {
			t.Fatalf("serialize %s: %v", js, err)
		}
		if string(got) != want {
			t.Fatalf("%s serialised as %q, want %q", js, got, want)
		}
		if g, err := client.SerializeMap(d, nil, nil); err != nil || string(g) != want {
			t.Fatalf("SerializeMap %s gives %q, want %q (%v)", js, g, want, err)
		}
		// include and exclude
		ex, in := map[string]bool{}, map[string]bool{}
		dEx, dIn := map[string]interface{}{}, map[string]interface{}{}
		for _, k := range keysOf(d) {
			if rapid.Bool().Draw(t, "ex") {
				ex[k] = true
			} else {
				dEx[k] = d[k]
			}
			if rapid.Bool().Draw(t, "in") {
				in[k] = true
				dIn[k] = d[k]
			}
		}
		if g, err := client.SerializeJSON(js, nil, ex); err != nil || string(g) != dictRef(dEx) {
			t.Fatalf("excluding %v from %s gives %q, want %q (%v)", ex, js, g, dictRef(dEx), err)
		}
		if g, err := client.SerializeJSON(js, in, nil); err != nil || string(g) != dictRef(dIn) {
			t.Fatalf("only %v of %s gives %q, want %q (%v)", in, js, g, dictRef(dIn), err)
		}
		// a different document has a different serialisation
		e := genDict(t, 2)
		if !reflect.DeepEqual(canon(d), canon(e)) {
			g2, err := client.SerializeJSON(mustJSON(e), nil, nil)
			if err == nil && bytes.Equal(got, g2) {
				t.Fatalf("%s and %s have the same serialisation %q", js, mustJSON(e), got)
			}
		}
	})
}

func keysOf(m map[string]interface{}) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func TestI01_SerializeHostile(t *testing.T) {
	pbt.Check(t, 800, "the input is JSON the format does not cover", func(t *rapid.T, c *pbt.Case) {
		b := rapid.OneOf(rapid.SliceOf(rapid.Byte()),
			rapid.Custom(func(t *rapid.T) []byte { return mustJSON(genJSON(t, 3)) }),
			rapid.Custom(func(t *rapid.T) []byte { return mustJSON(map[string]interface{}{"a": []interface{}{genJSON(t, 2)}}) }),
		).Draw(t, "b")
		c.Key("%q", b)
		c.NonTrivial(json.Valid(b))
		if p := pbt.NoPanic(func() {
			if _, err := client.SerializeJSON(b, nil, nil); err != nil {
				_ = err.Error()
			}
		}); p != "" {
			t.Fatalf("SerializeJSON(%q) panicked: %s", b, p)
		}
	})
}

func genWallet(t *rapid.T) (wallet.Wallet, string) {
	for {
		k := rapid.SliceOfN(rapid.Byte(), 32, 32).Draw(t, "key")
		k[31] |= 1
		k[0] &= 0x7f
		w, err := wallet.NewIcxWalletFromPrivateKey(mustKey(k))
		if err == nil {
			return w, w.Address()
		}
	}
}

func genAddr(t *rapid.T, contract bool) string {
	p := "hx"
	if contract {
		p = "cx"
	}
	return p + hex.EncodeToString(rapid.SliceOfN(rapid.Byte(), 20, 20).Draw(t, "addr"))
}

func TestI01_Sign(t *testing.T) {
	pbt.Check(t, 400, "the transaction carries a nested data object", func(t *rapid.T, c *pbt.Case) {
		w, addr := genWallet(t)
		p := &client.TransactionParam{
			Version:     client.NewHexInt(client.JsonrpcApiVersion),
			FromAddress: client.Address(addr),
			ToAddress:   client.Address(genAddr(t, rapid.Bool().Draw(t, "cx"))),
			StepLimit:   client.NewHexInt(rapid.Int64Range(0, 1<<62).Draw(t, "steps")),
			NetworkID:   client.NewHexInt(rapid.Int64Range(0, 1<<40).Draw(t, "nid")),
		}
		if rapid.Bool().Draw(t, "hasValue") {
			p.Value = client.NewHexInt(rapid.Int64Range(0, 1<<62).Draw(t, "value"))
		}
		if rapid.Bool().Draw(t, "hasNonce") {
			p.Nonce = client.NewHexInt(rapid.Int64Range(0, 1<<62).Draw(t, "nonce"))
		}
		d := 0
		if rapid.Bool().Draw(t, "hasData") {
			p.DataType = "call"
			x := genDict(t, 2)
			d = depthOf(x)
			p.Data = &client.CallData{Method: rapid.StringMatching(`[a-zA-Z]{1,8}`).Draw(t, "m"), Params: x}
		}
		if rapid.Bool().Draw(t, "stale") {
			p.Signature, p.TxHash, p.Timestamp = "AAAA", "0x00", "0x1"
		}
		cl := client.NewClient("http://127.0.0.1:1", fake.Quiet())
		t0 := time.Now().UnixNano() / 1000
		if err := cl.SignTransaction(w, p); err != nil {
			t.Fatalf("sign: %v", err)
		}
		t1 := time.Now().UnixNano() / 1000
		c.Key("%s", mustJSON(p.Data))
		c.NonTrivial(d > 0)
		ts, err := p.Timestamp.Value()
		if err != nil || ts < t0 || ts > t1 {
			t.Fatalf("timestamp %s is not the time of signing in microseconds [%d,%d]", p.Timestamp, t0, t1)
		}
		var m map[string]interface{}
		_ = json.Unmarshal(mustJSON(p), &m)
		delete(m, "signature")
		h := sha3.Sum256([]byte("icx_sendTransaction." + dictRef(m)))
		if string(p.TxHash) != "0x"+hex.EncodeToString(h[:]) {
			t.Fatalf("hash %s of %s, want %x", p.TxHash, mustJSON(p), h)
		}
		sig, err := base64.StdEncoding.DecodeString(p.Signature)
		if err != nil || len(sig) != 65 {
			t.Fatalf("signature %q", p.Signature)
		}
		pub, err := crypto.Ecrecover(h[:], sig)
		if err != nil {
			t.Fatalf("signature does not recover: %v", err)
		}
		ph := sha3.Sum256(pub[1:])
		if got := "hx" + hex.EncodeToString(ph[12:]); got != addr {
			t.Fatalf("signature recovers to %s, sender is %s", got, addr)
		}
	})
}

// ---- values ----

func TestI02_Values(t *testing.T) {
	pbt.Check(t, 2000, "the value is at a boundary or the text malformed", func(t *rapid.T, c *pbt.Case) {
		// addresses
		b := rapid.SliceOfN(rapid.Byte(), 21, 21).Draw(t, "b")
		b[0] &= 1
		a := client.NewAddress(b)
		if g, err := a.Value(); err != nil || !bytes.Equal(g, b) {
			t.Fatalf("address %x became %s became %x (%v)", b, a, g, err)
		}
		if common.NewAddress(b).String() != string(a) {
			t.Fatalf("address %x is %s, not %s", b, common.NewAddress(b), a)
		}
		// bytes
		x := rapid.SliceOf(rapid.Byte()).Draw(t, "x")
		if g, err := client.NewHexBytes(x).Value(); err != nil || !bytes.Equal(g, x) {
			t.Fatalf("bytes %x became %x (%v)", x, g, err)
		}
		// ints
		n := rapid.OneOf(rapid.Int64(), rapid.Int64Range(-300, 300),
			rapid.SampledFrom([]int64{-1 << 63, 1<<63 - 1, -1 << 31, 1<<31 - 1, 1 << 31})).Draw(t, "n")
		hi := client.NewHexInt(n)
		if g, err := hi.Value(); err != nil || g != n {
			t.Fatalf("int %d became %s became %d (%v)", n, hi, g, err)
		}
		bi, err := hi.BigInt()
		if err != nil || bi.Cmp(big.NewInt(n)) != 0 {
			t.Fatalf("int %d became %s became big %s (%v)", n, hi, bi, err)
		}
		i32, err := hi.Int()
		if fits := n >= -1<<31 && n < 1<<31; fits != (err == nil) || (fits && int64(i32) != n) {
			t.Fatalf("int %d as 32 bit: %d (%v)", n, i32, err)
		}
		// malformed
		s := rapid.OneOf(
			rapid.SampledFrom([]string{"", "0", "0x", "x", "h", "hx", "cx", "0x0g", "0x012", "hx00"}),
			rapid.StringMatching(`(hx|cx|0x|)[0-9a-fA-Fxg]{0,44}`),
			rapid.StringMatching(`(hx|cx)[0-9a-f]{38,46}`),
			rapid.String(),
		).Draw(t, "s")
		c.Key("%d %x %q", n, x, s)
		c.NonTrivial(s != "" || n > 1<<31 || n < 0)
		var av, bv []byte
		var aerr, berr error
		if p := pbt.NoPanic(func() {
			av, aerr = client.Address(s).Value()
			bv, berr = client.HexBytes(s).Value()
			_, _ = client.HexInt(s).Value()
			_, _ = client.HexInt(s).Int()
			_, _ = client.HexInt(s).BigInt()
			client.NewAddress([]byte(s))
		}); p != "" {
			t.Fatalf("converting %q panicked: %s", s, p)
		}
		okA := len(s) == 42 && (s[:2] == "hx" || s[:2] == "cx")
		if okA {
			r, err := hex.DecodeString(s[2:])
			okA = err == nil
			if okA {
				w := append([]byte{0}, r...)
				if s[0] == 'c' {
					w[0] = 1
				}
				if aerr != nil || !bytes.Equal(av, w) {
					t.Fatalf("address %s gives %x (%v)", s, av, aerr)
				}
			}
		}
		if !okA && aerr == nil {
			t.Fatalf("%q was accepted as address %x", s, av)
		}
		if s == "" {
			if berr != nil || len(bv) != 0 {
				t.Fatalf("empty bytes give %x (%v)", bv, berr)
			}
		} else {
			r, err := hex.DecodeString(strings.TrimPrefix(s, "0x"))
			if strings.HasPrefix(s, "0x") && err == nil {
				if berr != nil || !bytes.Equal(bv, r) {
					t.Fatalf("bytes %q give %x (%v)", s, bv, berr)
				}
			} else if berr == nil {
				t.Fatalf("%q was accepted as bytes %x", s, bv)
			}
		}
		if len(s) == 21 && (s[0] > 1) != (client.NewAddress([]byte(s)) == "") {
			t.Fatalf("NewAddress(%x) = %s", s, client.NewAddress([]byte(s)))
		}
	})
}

func TestI02_Options(t *testing.T) {
	pbt.Check(t, 600, "at least two options", func(t *rapid.T, c *pbt.Case) {
		o := client.IconOptions{}
		m := map[string]string{}
		for i := rapid.IntRange(0, 5).Draw(t, "n"); i > 0; i-- {
			k := rapid.StringMatching(`[a-z]{1,6}`).Draw(t, "k")
			switch rapid.IntRange(0, 3).Draw(t, "op") {
			case 0:
				v := rapid.StringMatching(`[a-z0-9=]{0,6}`).Draw(t, "v")
				o.Set(k, v)
				m[k] = v
			case 1:
				v := rapid.Bool().Draw(t, "bv")
				o.SetBool(k, v)
				if g, err := o.GetBool(k); err != nil || g != v {
					t.Fatalf("bool option %v read as %v (%v)", v, g, err)
				}
				m[k] = fmt.Sprint(v)
			case 2:
				v := rapid.Int64().Draw(t, "iv")
				o.SetInt(k, v)
				if g, err := o.GetInt(k); err != nil || g != v {
					t.Fatalf("int option %v read as %v (%v)", v, g, err)
				}
				m[k] = fmt.Sprint(v)
			default:
				o.Del(k)
				delete(m, k)
			}
		}
		c.Key("%v", m)
		c.NonTrivial(len(m) > 1)
		h := http.Header{}
		h.Set(client.HeaderKeyIconOptions, o.ToHeaderValue())
		g := client.NewIconOptionsByHeader(h)
		if len(g) != len(m) {
			t.Fatalf("options %v read back as %v", m, g)
		}
		for k, v := range m {
			if g.Get(k) != v || o.Get(k) != v {
				t.Fatalf("option %s=%q read back as %q", k, v, g.Get(k))
			}
		}
	})
}

// TestI02_MapError: errors of the node keep their meaning.
func TestI02_MapError(t *testing.T) {
	pbt.Check(t, 1200, "the error is a system error", func(t *rapid.T, c *pbt.Case) {
		code := rapid.SampledFrom([]jsonrpc.ErrorCode{-31000, -31000, -31000, -31001, -31002, -31003, -31004, -31005, -31006, -31007, -30000, -32600, 0}).Draw(t, "code")
		sub := rapid.IntRange(1998, 2013).Draw(t, "sub")
		short := rapid.Bool().Draw(t, "odd")
		msg := fmt.Sprintf("E%d:%s", sub, genText(t, "tail"))
		if short {
			msg = rapid.OneOf(rapid.StringN(0, 6, -1), rapid.SampledFrom([]string{"", "E", "E200", "2002", "Unknown"})).Draw(t, "short")
		}
		in := &jsonrpc.Error{Code: code, Message: msg}
		c.Key("%d %q", code, msg)
		c.NonTrivial(code == -31000)
		var out error
		if p := pbt.NoPanic(func() { out = client.MapError(in) }); p != "" {
			t.Fatalf("MapError(%d %q) panicked: %s", code, msg, p)
		}
		var want error = in
		switch code {
		case -31001:
			want = client.ErrSendFailByOverflow
		case -31002, -31003:
			want = client.ErrGetResultFailByPending
		case -31000:
			if len(msg) >= 5 {
				switch msg[1:5] {
				case "2001":
					want = client.ErrSendFailByOverflow
				case "2002":
					want = client.ErrSendFailByExpired
				case "2003":
					want = client.ErrSendFailByFuture
				}
			}
		}
		if out != want {
			t.Fatalf("error %d %q became %v, want %v", code, msg, out, want)
		}
		if client.MapError(nil) != nil {
			t.Fatalf("nil became an error")
		}
	})
}

func TestI02_RevertCode(t *testing.T) {
	pbt.Check(t, 300, "every code is non-trivial", func(t *rapid.T, c *pbt.Case) {
		n := rapid.IntRange(-3, 80).Draw(t, "code")
		c.Key("%d", n)
		c.NonTrivial(true)
		err := client.NewRevertError(n)
		if n < 0 {
			if err != nil {
				t.Fatalf("code %d became %v", n, err)
			}
			return
		}
		ec, ok := err.(interface{ ErrorCode() int })
		_ = ec
		if err == nil || (ok && ec.ErrorCode() != n) || codeOf(err) != n {
			t.Fatalf("revert code %d became %v with code %d", n, err, codeOf(err))
		}
	})
}

// ---- queries ----

func TestI03_Queries(t *testing.T) {
	node := fake.NewNode()
	defer node.Close()
	cl := client.NewClient(node.URL, fake.Quiet())
	pbt.Check(t, 250, "the query succeeds with a non-empty answer", func(t *rapid.T, c *pbt.Case) {
		src := types.BtpAddress(fmt.Sprintf("btp://%x.icon/%s", rapid.IntRange(1, 255).Draw(t, "net"), genAddr(t, true)))
		dst := types.BtpAddress(fmt.Sprintf("btp://%x.bsc/0x%x", rapid.IntRange(1, 255).Draw(t, "net2"), rapid.SliceOfN(rapid.Byte(), 20, 20).Draw(t, "acc")))
		num := rapid.Int64Range(0, 1<<62).Draw(t, "num")
		nid := rapid.Int64Range(0, 1<<30).Draw(t, "nid")
		var last *fake.Call
		var answer interface{}
		fail := rapid.IntRange(0, 4).Draw(t, "fail") == 0
		node.Handle = func(c *fake.Call) interface{} {
			last = c
			if fail {
				return &fake.RPCError{Code: -31004, Message: "E1005:NotFound"}
			}
			return answer
		}
		data := func() string { return base64.StdEncoding.EncodeToString(rapid.SliceOf(rapid.Byte()).Draw(t, "data")) }
		bp := &client.BTPBlockParam{Height: client.NewHexInt(num), NetworkId: client.NewHexInt(nid)}
		bpWant := map[string]interface{}{"height": fmt.Sprintf("0x%x", num), "networkID": fmt.Sprintf("0x%x", nid)}
		q := rapid.IntRange(0, 15).Draw(t, "query")
		var method string
		var want interface{}
		var got, exp interface{}
		var err error
		switch q {
		case 0, 1:
			answer = fmt.Sprintf("0x%x", num)
			m := "getBTPLinkNetworkId"
			var g int64
			if q == 0 {
				g, err = cl.GetBTPLinkNetworkId(src, dst)
			} else {
				m = "getBTPLinkOffset"
				g, err = cl.GetBTPLinkOffset(src, dst)
			}
			got, exp = g, num
			method = "icx_call"
			want = map[string]interface{}{"from": "", "to": src.Account(), "dataType": "call",
				"data": map[string]interface{}{"method": m, "params": map[string]interface{}{"_link": string(dst)}}}
		case 2:
			method, want, answer = "btp_getHeader", bpWant, data()
			got, err = cl.GetBTPHeader(bp)
			exp = answer
		case 3:
			method, want, answer = "btp_getProof", bpWant, data()
			got, err = cl.GetBTPProof(bp)
			exp = answer
		case 4:
			l := []string{}
			for i := rapid.IntRange(0, 4).Draw(t, "n"); i > 0; i-- {
				l = append(l, data())
			}
			method, want, answer = "btp_getMessages", bpWant, l
			got, err = cl.GetBTPMessage(bp)
			exp = l
		case 5:
			info := &client.BTPNetworkInfo{StartHeight: client.NewHexInt(num), NetworkName: genText(t, "name"), NetworkID: client.NewHexInt(nid), Open: "0x1"}
			_ = json.Unmarshal(mustJSON(info), info)
			method, want, answer = "btp_getNetworkInfo", map[string]interface{}{"height": "", "id": fmt.Sprintf("0x%x", nid)}, info
			got, err = cl.GetBTPNetworkInfo(&client.BTPNetworkInfoParam{Id: client.NewHexInt(nid)})
			exp = info
		case 6:
			b := rapid.SliceOfN(rapid.Byte(), 1, 20).Draw(t, "b")
			answer, exp = b, b
			method, want = "icx_getBlockHeaderByHeight", map[string]interface{}{"height": fmt.Sprintf("0x%x", num)}
			got, err = cl.GetBlockHeaderByHeight(&client.BlockHeightParam{Height: client.NewHexInt(num)})
		case 7:
			b := rapid.SliceOfN(rapid.Byte(), 1, 20).Draw(t, "b")
			answer, exp = b, b
			method, want = "icx_getVotesByHeight", map[string]interface{}{"height": fmt.Sprintf("0x%x", num)}
			got, err = cl.GetVotesByHeight(&client.BlockHeightParam{Height: client.NewHexInt(num)})
		case 8:
			b := rapid.SliceOfN(rapid.Byte(), 1, 20).Draw(t, "b")
			answer, exp = b, b
			method, want = "icx_getDataByHash", map[string]interface{}{"hash": fmt.Sprintf("0x%x", b)}
			got, err = cl.GetDataByHash(&client.DataHashParam{Hash: client.NewHexBytes(b)})
		case 9:
			l := [][]byte{}
			for i := rapid.IntRange(0, 3).Draw(t, "n"); i > 0; i-- {
				l = append(l, rapid.SliceOfN(rapid.Byte(), 1, 20).Draw(t, "b"))
			}
			answer, exp = l, l
			method, want = "icx_getProofForResult", map[string]interface{}{"hash": "0x01", "index": fmt.Sprintf("0x%x", num)}
			got, err = cl.GetProofForResult(&client.ProofResultParam{BlockHash: "0x01", Index: client.NewHexInt(num)})
		case 10:
			l := [][][]byte{}
			for i := rapid.IntRange(0, 3).Draw(t, "n"); i > 0; i-- {
				l = append(l, [][]byte{rapid.SliceOfN(rapid.Byte(), 1, 20).Draw(t, "b"), {}})
			}
			answer, exp = l, l
			method, want = "icx_getProofForEvents", map[string]interface{}{"hash": "0x01", "index": fmt.Sprintf("0x%x", num), "events": []interface{}{"0x0", "0x2"}}
			got, err = cl.GetProofForEvents(&client.ProofEventsParam{BlockHash: "0x01", Index: client.NewHexInt(num), Events: []client.HexInt{"0x0", "0x2"}})
		case 11, 12:
			b := rapid.SliceOfN(rapid.Byte(), 32, 32).Draw(t, "b")
			h := fmt.Sprintf("0x%x", b)
			answer = map[string]interface{}{"status": rapid.SampledFrom([]string{"0x0", "0x1"}).Draw(t, "st"), "txHash": h, "blockHeight": fmt.Sprintf("0x%x", num),
				"stepUsed": "0x2", "eventLogs": []interface{}{map[string]interface{}{"scoreAddress": src.Account(), "indexed": []string{"A(int)", "0x1"}, "data": []string{}}}}
			want = map[string]interface{}{"txHash": h}
			var tr *client.TransactionResult
			if q == 11 {
				method = "icx_getTransactionResult"
				tr, err = cl.GetTransactionResult(&client.TransactionHashParam{Hash: client.HexBytes(h)})
			} else {
				method = "icx_waitTransactionResult"
				tr, err = cl.WaitTransactionResult(&client.TransactionHashParam{Hash: client.HexBytes(h)})
			}
			e := &client.TransactionResult{}
			_ = json.Unmarshal(mustJSON(answer), e)
			got, exp = tr, e
		case 13:
			h := fmt.Sprintf("0x%x", rapid.SliceOfN(rapid.Byte(), 32, 32).Draw(t, "b"))
			answer = h
			p := &client.TransactionParam{Version: "0x3", FromAddress: client.Address(genAddr(t, false)), ToAddress: client.Address(src.Account()),
				StepLimit: client.NewHexInt(num), Timestamp: "0x5", NetworkID: client.NewHexInt(nid), Signature: data(), TxHash: "0x77"}
			want = map[string]interface{}{"version": "0x3", "from": string(p.FromAddress), "to": src.Account(), "stepLimit": fmt.Sprintf("0x%x", num),
				"timestamp": "0x5", "nid": fmt.Sprintf("0x%x", nid), "signature": p.Signature}
			method = "icx_sendTransactionAndWait"
			var g *client.HexBytes
			g, err = cl.SendTransactionAndWait(p)
			got, exp = g, &h
		case 14:
			answer = map[string]interface{}{"height": num & (1<<53 - 1), "confirmed_transaction_list": []interface{}{map[string]interface{}{"txHash": "0x1", "from": genAddr(t, false), "to": src.Account()}}}
			method, want = "icx_getBlockByHeight", map[string]interface{}{"height": fmt.Sprintf("0x%x", num)}
			got, err = cl.GetBlockByHeight(&client.BlockHeightParam{Height: client.NewHexInt(num)})
			exp = answer
		default:
			tx, rx := rapid.Int64Range(0, 1<<60).Draw(t, "tx"), rapid.Int64Range(0, 1<<60).Draw(t, "rx")
			extra := rapid.SliceOf(rapid.Byte()).Draw(t, "extra")
			bad := rapid.IntRange(0, 5).Draw(t, "bad")
			ver := map[string]interface{}{"height": fmt.Sprintf("0x%x", num), "extra": "0x" + hex.EncodeToString(extra)}
			st := map[string]interface{}{"tx_seq": fmt.Sprintf("0x%x", tx), "rx_seq": fmt.Sprintf("0x%x", rx), "verifier": ver}
			switch bad {
			case 1:
				st["tx_seq"] = "zz"
			case 2:
				st["rx_seq"] = "0x1ffffffffffffffffffff"
			case 3:
				ver["height"] = "0xg"
			case 4:
				ver["extra"] = "0x1"
			}
			answer = st
			from := genAddr(t, false)
			method = "icx_call"
			want = map[string]interface{}{"from": from, "to": dst.Account(), "dataType": "call",
				"data": map[string]interface{}{"method": "getStatus", "params": map[string]interface{}{"_link": string(src)}}}
			var bs *types.BMCLinkStatus
			bs, err = cl.GetStatus(from, src, dst)
			if !fail && bad >= 1 && bad <= 4 {
				if err == nil {
					t.Fatalf("malformed status %s was accepted as %+v", mustJSON(answer), bs)
				}
				return
			}
			e := &types.BMCLinkStatus{TxSeq: tx, RxSeq: rx}
			e.Verifier.Height = num
			e.Verifier.Extra = extra
			if bs != nil && len(bs.Verifier.Extra) == 0 && len(extra) == 0 {
				bs.Verifier.Extra = extra
			}
			got, exp = bs, e
		}
		c.Label("%s fail=%v", method, fail)
		c.Key("%d %s %s", q, mustJSON(want), mustJSON(answer))
		c.NonTrivial(!fail)
		if last == nil || last.Method != method {
			t.Fatalf("query %d did not call %s but %+v", q, method, last)
		}
		if !bytes.Equal(mustJSON(canonRaw(last.Params)), mustJSON(want)) {
			t.Fatalf("%s called with %s, want %s", method, last.Params, mustJSON(want))
		}
		if fail {
			if je, ok := err.(*jsonrpc.Error); !ok || je.Code != -31004 || je.Message != "E1005:NotFound" {
				t.Fatalf("node error reported as %v", err)
			}
			return
		}
		if err != nil {
			t.Fatalf("%s: %v", method, err)
		}
		if !reflect.DeepEqual(canon(got), canon(exp)) {
			t.Fatalf("%s answered %s, got %s", method, mustJSON(answer), mustJSON(got))
		}
	})
}

// TestI03_SendAndGetResult: a transaction is sent once and its own result is
// returned, whatever the node says in between. The client waits, so many run
// at once.
func TestI03_SendAndGetResult(t *testing.T) {
	type plan struct {
		send    string
		pending int
		result  string
		hash    string
	}
	run := func(p *plan) string {
		node := fake.NewNode()
		defer node.Close()
		var mtx sync.Mutex
		sends, polls := 0, 0
		bad := ""
		node.Handle = func(c *fake.Call) interface{} {
			mtx.Lock()
			defer mtx.Unlock()
			switch c.Method {
			case "icx_sendTransaction":
				sends++
				switch p.send {
				case "dup":
					return &fake.RPCError{Code: -31000, Message: "E2000:duplicate"}
				case "refused":
					return &fake.RPCError{Code: -32602, Message: "E2005:invalid"}
				case "expired":
					return &fake.RPCError{Code: -31000, Message: "E2002:expired"}
				}
				return p.hash
			case "icx_getTransactionResult":
				polls++
				var q struct {
					H string `json:"txHash"`
				}
				_ = json.Unmarshal(c.Params, &q)
				if q.H != p.hash {
					bad = fmt.Sprintf("asked for the result of %q instead of %q", q.H, p.hash)
				}
				if polls <= p.pending {
					return &fake.RPCError{Code: -31002 - polls%2, Message: "E"}
				}
				if p.result == "missing" {
					return &fake.RPCError{Code: -31004, Message: "E1005:NotFound"}
				}
				return map[string]interface{}{"status": p.result, "txHash": p.hash}
			}
			bad = "unexpected " + c.Method
			return nil
		}
		cl := client.NewClient(node.URL, fake.Quiet())
		var h *client.HexBytes
		var r *client.TransactionResult
		var err error
		if !pbt.Within(60*time.Second, func() {
			h, r, err = cl.SendTransactionAndGetResult(&client.TransactionParam{Version: "0x3", TxHash: client.HexBytes(p.hash)})
		}) {
			return "does not return"
		}
		mtx.Lock()
		defer mtx.Unlock()
		if bad != "" {
			return bad
		}
		if sends != 1 {
			return fmt.Sprintf("%d transactions sent", sends)
		}
		if p.send == "refused" || p.send == "expired" {
			if _, ok := err.(*jsonrpc.Error); !ok || polls != 0 {
				return fmt.Sprintf("the node refused the transaction, got %v after %d queries", err, polls)
			}
			return ""
		}
		if polls != p.pending+1 || h == nil || string(*h) != p.hash {
			return fmt.Sprintf("%d queries for the result of %v", polls, h)
		}
		if p.result == "missing" {
			if je, ok := err.(*jsonrpc.Error); !ok || je.Code != -31004 {
				return fmt.Sprintf("the result is missing, got %v", err)
			}
			return ""
		}
		if err != nil || r == nil || string(r.Status) != p.result {
			return fmt.Sprintf("the result %s was returned as %+v %v", p.result, r, err)
		}
		return ""
	}
	pbt.CheckSlow(t, 1, "the node reports the transaction as duplicate or pending, or refuses it", func(t *rapid.T, c *pbt.Case) {
		ps := make([]*plan, 24)
		res := make([]string, len(ps))
		var wg sync.WaitGroup
		for i := range ps {
			p := &plan{rapid.SampledFrom([]string{"ok", "ok", "dup", "refused", "expired"}).Draw(t, "send"), rapid.IntRange(0, 2).Draw(t, "pending"),
				rapid.SampledFrom([]string{"0x1", "0x0", "missing"}).Draw(t, "result"), fmt.Sprintf("0x%x", rapid.SliceOfN(rapid.Byte(), 32, 32).Draw(t, "hash"))}
			c.Key("%+v", *p)
			ps[i] = p
		}
		c.NonTrivial(true)
		for i := range ps {
			i := i
			wg.Add(1)
			go func() { defer wg.Done(); res[i] = run(ps[i]) }()
		}
		wg.Wait()
		for i := range res {
			if res[i] != "" {
				t.Fatalf("%+v: %s", *ps[i], res[i])
			}
		}
	})
}

func canonRaw(b []byte) interface{} {
	var o interface{}
	_ = json.Unmarshal(b, &o)
	return o
}

// ---- monitors ----

// TestI04_Monitor: a monitor hands every notification to the callback, once
// and in order, and ends with the reason the stream ended.
func TestI04_Monitor(t *testing.T) {
	node := fake.NewNode()
	defer node.Close()
	pbt.Check(t, 120, "at least two notifications", func(t *rapid.T, c *pbt.Case) {
		kind := rapid.SampledFrom([]string{"btp", "block", "event"}).Draw(t, "kind")
		n := rapid.IntRange(0, 12).Draw(t, "n")
		end := rapid.SampledFrom([]string{"close", "drop", "garbage", "refuse", "client"}).Draw(t, "end")
		cbErr := rapid.IntRange(-1, 12).Draw(t, "cbErr")
		req := rapid.Int64Range(0, 1<<50).Draw(t, "req")
		code := rapid.SampledFrom([]int{3, 1, -1, -32000, 1 << 30}).Draw(t, "code")
		at := rapid.SampledFrom([]string{"", "/api/v3/icon_dex", "/http/http"}).Draw(t, "at")
		var sent []string
		var msgs [][]byte
		for i := 0; i < n; i++ {
			// the later notification must not inherit anything of the earlier one
			h := rapid.SampledFrom([]string{"", "0x1", genText(t, "h")}).Draw(t, "hh")
			h = strings.ToValidUTF8(h, "?")
			m := map[string]interface{}{}
			hk, pk := "header", "proof"
			if kind != "btp" {
				hk, pk = "hash", "height"
			}
			if h != "" {
				m[hk] = h
			}
			p := ""
			if rapid.Bool().Draw(t, "hasP") {
				p = fmt.Sprint(i)
				m[pk] = p
			}
			msgs = append(msgs, mustJSON(m))
			sent = append(sent, h+"|"+p)
		}
		c.Key("%s %d %s %v", kind, n, end, sent)
		c.Label("%s/%s", kind, end)
		c.NonTrivial(n > 1)
		var gotReq map[string]interface{}
		var gotPath string
		node.WS = func(path string, conn *websocket.Conn) {
			gotPath = path
			_ = conn.ReadJSON(&gotReq)
			if end == "refuse" {
				_ = conn.WriteJSON(map[string]interface{}{"code": code, "message": "no"})
				return
			}
			_ = conn.WriteJSON(map[string]interface{}{"code": 0})
			for _, m := range msgs {
				_ = conn.WriteMessage(websocket.TextMessage, m)
			}
			switch end {
			case "close":
				_ = conn.WriteMessage(websocket.CloseMessage, websocket.FormatCloseMessage(websocket.CloseNormalClosure, ""))
			case "garbage":
				_ = conn.WriteMessage(websocket.TextMessage, []byte("{"))
			case "client":
				_, _, _ = conn.ReadMessage()
			}
		}
		cl := client.NewClient(node.URL+at, fake.Quiet())
		var got []string
		inits, errs := 0, 0
		onErr := func(conn *websocket.Conn, err error) { errs++ }
		step := func(conn *websocket.Conn, a, b string) error {
			got = append(got, a+"|"+b)
			if end == "client" && len(got) == n {
				cl.CloseMonitor(conn)
			}
			if len(got)-1 == cbErr {
				return fmt.Errorf("callback")
			}
			return nil
		}
		if end == "client" && n == 0 {
			t.Skip("nothing to close on")
		}
		var err error
		done := pbt.Within(20*time.Second, func() {
			switch kind {
			case "btp":
				err = cl.MonitorBTP(&client.BTPRequest{Height: client.NewHexInt(req), NetworkID: "0x7", ProofFlag: "0x0"},
					func(conn *websocket.Conn, v *client.BTPNotification) error { return step(conn, v.Header, v.Proof) },
					func(*websocket.Conn) {
						inits++
						if len(got) > 0 {
							inits = 100
						}
					}, onErr)
			case "block":
				err = cl.MonitorBlock(&client.BlockRequest{Height: client.NewHexInt(req)},
					func(conn *websocket.Conn, v *client.BlockNotification) error {
						return step(conn, string(v.Hash), string(v.Height))
					},
					func(*websocket.Conn) { inits++ }, onErr)
			default:
				err = cl.MonitorEvent(&client.EventRequest{Height: client.NewHexInt(req)},
					func(conn *websocket.Conn, v *client.EventNotification) error {
						return step(conn, string(v.Hash), string(v.Height))
					}, onErr)
			}
		})
		if !done {
			t.Fatalf("monitor did not end after %s", end)
		}
		if gotPath != at+"/"+kind || gotReq["height"] != fmt.Sprintf("0x%x", req) {
			t.Fatalf("monitor asked %s %v for height %d", gotPath, gotReq, req)
		}
		if end == "refuse" {
			if err == nil || len(got) != 0 || inits != 0 {
				t.Fatalf("refused monitor: err=%v inits=%d notifications=%v", err, inits, got)
			}
			return
		}
		if !reflect.DeepEqual(append([]string{}, got...), append([]string{}, sent...)) {
			t.Fatalf("sent %q, delivered %q", sent, got)
		}
		if kind != "event" && inits != 1 {
			t.Fatalf("start callback ran %d times", inits)
		}
		if end == "close" || end == "client" {
			if errs != 0 {
				t.Fatalf("%s: a stream that ended normally ran the error callback %d times", kind, errs)
			}
		} else {
			if err == nil || errs != 1 {
				t.Fatalf("a broken stream ended with err=%v and %d error callbacks", err, errs)
			}
		}
	})
}
