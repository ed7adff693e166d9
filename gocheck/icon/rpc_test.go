package icon

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"reflect"
	"strings"
	"testing"

	"github.com/icon-project/btp/common"
	"github.com/icon-project/btp/common/jsonrpc"
	"pgregory.net/rapid"

	"verif/gocheck/pbt"
)

type rt func(*http.Request) (*http.Response, error)

func (f rt) RoundTrip(r *http.Request) (*http.Response, error) { return f(r) }

func genText(t *rapid.T, label string) string {
	return rapid.OneOf(
		rapid.StringN(0, 12, -1),
		rapid.SampledFrom([]string{"", "0x", "0x0", "a.b", "\\", "{x}", "[y]", "\\0", "\u00e9\u4e2d", "\"", "null"}),
		rapid.StringMatching(`[a-z0-9.\\{}\[\]]{0,10}`),
	).Draw(t, label)
}

// genJSON makes a value as encoding/json decodes it, numbers being integers a
// float64 holds exactly.
func genJSON(t *rapid.T, depth int) interface{} {
	k := rapid.IntRange(0, 9).Draw(t, "jkind")
	if depth <= 0 && k > 6 {
		k = 2
	}
	switch k {
	case 0:
		return nil
	case 1:
		return rapid.Bool().Draw(t, "jb")
	case 2, 3, 4:
		return genText(t, "js")
	case 5, 6:
		return float64(rapid.OneOf(rapid.Int64Range(-1<<53, 1<<53), rapid.Int64Range(-3, 300)).Draw(t, "jn"))
	case 7:
		n := rapid.IntRange(0, 4).Draw(t, "jl")
		l := make([]interface{}, n)
		for i := range l {
			l[i] = genJSON(t, depth-1)
		}
		return l
	default:
		n := rapid.IntRange(0, 4).Draw(t, "jm")
		m := map[string]interface{}{}
		for i := 0; i < n; i++ {
			m[genText(t, "jk")] = genJSON(t, depth-1)
		}
		return m
	}
}

func mustJSON(v interface{}) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return b
}

// TestJ01_Call: for every answer a server can give, a call returns the result
// or an error, and the error of the server is the one the caller sees.
func TestJ01_Call(t *testing.T) {
	pbt.Check(t, 1500, "the server answers with an error, a failure status or a malformed body", func(t *rapid.T, c *pbt.Case) {
		method := genText(t, "method")
		var params interface{}
		hasParams := rapid.Bool().Draw(t, "hasParams")
		if hasParams {
			params = genJSON(t, 2)
		}
		hdr := map[string]string{}
		for i := rapid.IntRange(0, 2).Draw(t, "nh"); i > 0; i-- {
			hdr["X-"+rapid.StringMatching(`[A-Z][a-z]{1,5}`).Draw(t, "hk")] = rapid.StringMatching(`[a-z=,]{1,8}`).Draw(t, "hv")
		}
		if rapid.IntRange(0, 4).Draw(t, "own") == 0 {
			hdr["Accept"] = "text/x-own" // replaces the default
		}
		kind := rapid.SampledFrom([]string{"result", "error", "null", "neither", "garbage", "truncated", "array", "empty", "transport", "pre"}).Draw(t, "kind")
		status := rapid.SampledFrom([]int{200, 200, 200, 400, 404, 500, 503, 201}).Draw(t, "status")
		ctype := rapid.SampledFrom([]string{"application/json", "application/json; charset=UTF-8", "text/plain", "", "text/html,application/json"}).Draw(t, "ctype")
		result := genJSON(t, 3)
		je := &jsonrpc.Error{
			Code:    jsonrpc.ErrorCode(rapid.OneOf(rapid.IntRange(-32700, -30000), rapid.IntRange(-2, 40000)).Draw(t, "code")),
			Message: genText(t, "msg"),
		}
		if rapid.Bool().Draw(t, "hasData") {
			je.Data = genJSON(t, 1)
		}
		var body []byte
		switch kind {
		case "result":
			body = mustJSON(map[string]interface{}{"jsonrpc": "2.0", "id": 1, "result": result})
		case "error":
			body = mustJSON(map[string]interface{}{"jsonrpc": "2.0", "id": 1, "error": je})
		case "null":
			body = []byte("null")
		case "neither":
			body = []byte(`{"jsonrpc":"2.0","id":1}`)
		case "garbage":
			body = rapid.SliceOfN(rapid.Byte(), 1, 30).Draw(t, "garbage")
			if json.Valid(body) {
				body = []byte("<html>")
			}
		case "truncated":
			full := mustJSON(map[string]interface{}{"jsonrpc": "2.0", "id": 1, "result": result})
			body = full[:rapid.IntRange(1, len(full)-1).Draw(t, "cut")]
		case "array":
			body = []byte(`[{"jsonrpc":"2.0","id":1,"result":true}]`)
		}
		var got *http.Request
		var gotBody []byte
		sent := 0
		hc := &http.Client{Transport: rt(func(r *http.Request) (*http.Response, error) {
			sent++
			got = r
			gotBody, _ = io.ReadAll(r.Body)
			if kind == "transport" {
				return nil, errors.New("no route")
			}
			h := http.Header{}
			if ctype != "" {
				h.Set("Content-Type", ctype)
			}
			return &http.Response{StatusCode: status, Status: fmt.Sprint(status), Header: h,
				Body: io.NopCloser(bytes.NewReader(body)), Request: r}, nil
		})}
		cl := jsonrpc.NewJsonRpcClient(hc, "http://node/api")
		for k, v := range hdr {
			cl.CustomHeader[k] = v
		}
		preErr := errors.New("pre")
		if kind == "pre" {
			cl.Pre = func(*http.Request) error { return preErr }
		} else if rapid.Bool().Draw(t, "pre") {
			cl.Pre = func(r *http.Request) error { r.Header.Set("Before-Send", "1"); return nil }
		}
		c.Key("%s %d %q %s %s", kind, status, ctype, mustJSON(result), mustJSON(je))
		c.Label("%s/%v", kind, status == 200)
		c.NonTrivial(kind != "result" || status != 200)

		var out interface{}
		var err error
		if p := pbt.NoPanic(func() { _, err = cl.Do(method, params, &out) }); p != "" {
			t.Fatalf("Do panicked on a %s answer with status %d: %s", kind, status, p)
		}
		if kind == "pre" {
			if err != preErr || sent != 0 {
				t.Fatalf("Pre refused the request, but err=%v sent=%d", err, sent)
			}
			return
		}
		// the request
		if sent != 1 {
			t.Fatalf("%d requests sent for one call", sent)
		}
		if got.Method != "POST" || got.URL.String() != "http://node/api" {
			t.Fatalf("request went to %s %s", got.Method, got.URL)
		}
		for k, v := range hdr {
			if vs := got.Header.Values(k); len(vs) != 1 || vs[0] != v {
				t.Fatalf("custom header %s=%q arrived as %q", k, v, vs)
			}
		}
		if cl.Pre != nil && got.Header.Get("Before-Send") != "1" {
			t.Fatalf("what Pre set on the request was not sent")
		}
		if !common.HasContentType(got.Header, "application/json") {
			t.Fatalf("request content type %q", got.Header.Get("Content-Type"))
		}
		var rq map[string]interface{}
		if e := json.Unmarshal(gotBody, &rq); e != nil {
			t.Fatalf("request is not JSON: %v", e)
		}
		want := map[string]interface{}{"jsonrpc": "2.0", "method": method, "id": rq["id"]}
		// invalid UTF-8 cannot be kept in JSON
		want["method"] = strings.ToValidUTF8(method, "\ufffd")
		if params != nil {
			_ = json.Unmarshal(mustJSON(params), &params)
			want["params"] = params
		}
		if rq["id"] == nil {
			t.Fatalf("request has no id: %s", gotBody)
		}
		if !reflect.DeepEqual(rq, want) {
			t.Fatalf("request %s, want %s", gotBody, mustJSON(want))
		}
		// the answer
		if err != nil {
			if v := reflect.ValueOf(err); v.Kind() == reflect.Ptr && v.IsNil() {
				t.Fatalf("a nil %T was returned as error for a %s answer with status %d", err, kind, status)
			}
		}
		isJSON := strings.Contains(ctype, "application/json")
		switch {
		case kind == "transport":
			if err == nil {
				t.Fatalf("transport failure reported as success")
			}
		case kind == "error" && (status == 200 || isJSON):
			g, ok := err.(*jsonrpc.Error)
			if !ok {
				t.Fatalf("server error reported as %T %v", err, err)
			}
			var data interface{}
			_ = json.Unmarshal(mustJSON(je.Data), &data)
			if g.Code != je.Code || g.Message != strings.ToValidUTF8(je.Message, "\ufffd") || !reflect.DeepEqual(g.Data, data) {
				t.Fatalf("server error %s reported as %s", mustJSON(je), mustJSON(g))
			}
		case status != 200:
			if err == nil {
				t.Fatalf("status %d with a %s body reported as success", status, kind)
			}
			if kind != "garbage" && kind != "truncated" && kind != "array" || !isJSON {
				he, ok := err.(*common.HttpError)
				if !ok {
					t.Fatalf("status %d with a %s body reported as %T %v", status, kind, err, err)
				}
				if he.StatusCode() != status || !bytes.Equal(he.Response(), body) {
					t.Fatalf("status %d reported as %d, body %q as %q", status, he.StatusCode(), body, he.Response())
				}
			}
		case kind == "result":
			if err != nil {
				t.Fatalf("result %s reported as error %v", body, err)
			}
			var wantR interface{}
			_ = json.Unmarshal(mustJSON(result), &wantR)
			if !reflect.DeepEqual(out, wantR) {
				t.Fatalf("result %s decoded as %s", mustJSON(result), mustJSON(out))
			}
		case kind == "neither":
			// the protocol asks for one of them; either reading is accepted
		default:
			if err == nil {
				t.Fatalf("a %s body %q was reported as success", kind, body)
			}
		}
	})
}

// TestJ01_Types: results arrive in the caller's own types.
func TestJ01_Types(t *testing.T) {
	type inner struct {
		A string   `json:"a"`
		B []byte   `json:"b"`
		C []string `json:"c,omitempty"`
	}
	type typed struct {
		N int64             `json:"n"`
		I *inner            `json:"i"`
		L []inner           `json:"l"`
		M map[string]string `json:"m"`
		R json.RawMessage   `json:"r"`
	}
	pbt.Check(t, 800, "the result has a nested object", func(t *rapid.T, c *pbt.Case) {
		gi := func() inner {
			return inner{A: genText(t, "a"), B: rapid.SliceOf(rapid.Byte()).Draw(t, "b"),
				C: rapid.SliceOfN(rapid.StringN(0, 4, -1), 0, 3).Draw(t, "c")}
		}
		v := typed{N: rapid.Int64Range(-1<<53, 1<<53).Draw(t, "n"), M: map[string]string{}}
		if rapid.Bool().Draw(t, "hasI") {
			i := gi()
			v.I = &i
		}
		for k := rapid.IntRange(0, 3).Draw(t, "nl"); k > 0; k-- {
			v.L = append(v.L, gi())
		}
		for k := rapid.IntRange(0, 3).Draw(t, "nm"); k > 0; k-- {
			v.M[genText(t, "mk")] = genText(t, "mv")
		}
		v.R = mustJSON(genJSON(t, 1))
		hc := &http.Client{Transport: rt(func(r *http.Request) (*http.Response, error) {
			b := mustJSON(map[string]interface{}{"jsonrpc": "2.0", "id": 1, "result": v})
			return &http.Response{StatusCode: 200, Header: http.Header{}, Body: io.NopCloser(bytes.NewReader(b))}, nil
		})}
		var out, want typed
		_ = json.Unmarshal(mustJSON(v), &want)
		c.Key("%s", mustJSON(v))
		c.NonTrivial(v.I != nil || len(v.L) > 0)
		if _, err := jsonrpc.NewJsonRpcClient(hc, "http://node").Do("m", nil, &out); err != nil {
			t.Fatalf("result %s: %v", mustJSON(v), err)
		}
		if !bytes.Equal(mustJSON(canon(out)), mustJSON(canon(want))) {
			t.Fatalf("result %s decoded as %s", mustJSON(want), mustJSON(out))
		}
	})
}

func canon(v interface{}) interface{} {
	var o interface{}
	_ = json.Unmarshal(mustJSON(v), &o)
	return o
}
