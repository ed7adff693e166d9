package e2e

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"github.com/icon-project/btp/common/wallet"

	"verif/gocheck/pbt"
)

type setting struct {
	name string
	def  interface{}
	gen  func(t *rapid.T, n string) interface{}
}

func oneOf(vs ...string) func(t *rapid.T, n string) interface{} {
	return func(t *rapid.T, n string) interface{} { return rapid.SampledFrom(vs).Draw(t, n) }
}

func genBool(t *rapid.T, n string) interface{} { return rapid.Bool().Draw(t, n) }
func genInt(t *rapid.T, n string) interface{}  { return int64(rapid.IntRange(0, 1<<30).Draw(t, n)) }
func genOpts(t *rapid.T, n string) interface{} {
	m := map[string]string{}
	for k := rapid.IntRange(1, 3).Draw(t, n); k > 0; k-- {
		m[rapid.StringMatching(`[a-z]{1,6}`).Draw(t, n)] = rapid.StringMatching(`[a-zA-Z0-9:/.]{1,8}`).Filter(notNumber).Draw(t, n)
	}
	return m
}

// notNumber: an option that reads as a number is stored as a number, which is intended.
func notNumber(s string) bool {
	if _, err := strconv.ParseFloat(s, 64); err == nil {
		return false
	}
	_, err := strconv.ParseInt(s, 0, 64)
	return err != nil
}

var settings = []setting{
	{"src.address", "", oneOf("btp://0x1.icon/cx0000000000000000000000000000000000000001", "btp://0x2.eth/0xAb")},
	{"src.endpoint", "", oneOf("http://localhost:9080/api/v3/icon", "ws://127.0.0.1:8545")},
	{"src.bridge_mode", false, genBool},
	{"src.options", nil, genOpts},
	{"dst.address", "", oneOf("btp://0x3.icon/cx0000000000000000000000000000000000000003", "btp://0x4.hardhat/0xCd")},
	{"dst.endpoint", "", oneOf("http://localhost:9081/api/v3/icon?x=1", "http://127.0.0.1:8545/")},
	{"dst.bridge_mode", false, genBool},
	{"dst.options", nil, genOpts},
	{"direction", "both", oneOf("both", "front", "reverse")},
	{"maxSizeTx", false, genBool},
	{"offset", int64(0), genInt},
	{"log_level", "debug", oneOf("trace", "info", "error")},
	{"console_level", "trace", oneOf("debug", "warn", "panic")},
	{"log_forwarder.vendor", "", oneOf("fluentd", "logstash")},
	{"log_forwarder.address", "", oneOf("tcp://1.2.3.4:5", "localhost:24224")},
	{"log_forwarder.level", "info", oneOf("debug", "error")},
	{"log_forwarder.name", "", oneOf("a", "the relay")},
	{"log_forwarder.options", nil, genOpts},
	{"log_writer.maxsize", int64(100), genInt},
	{"log_writer.maxage", int64(0), genInt},
	{"log_writer.maxbackups", int64(0), genInt},
	{"log_writer.localtime", false, genBool},
	{"log_writer.compress", false, genBool},
}

func asText(v interface{}) string {
	if m, ok := v.(map[string]string); ok {
		var ks []string
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for i, k := range ks {
			ks[i] = k + "=" + m[k]
		}
		return strings.Join(ks, ",")
	}
	return fmt.Sprint(v)
}

func put(doc map[string]interface{}, path string, v interface{}) {
	ps := strings.Split(path, ".")
	for _, p := range ps[:len(ps)-1] {
		d, ok := doc[p].(map[string]interface{})
		if !ok {
			d = map[string]interface{}{}
			doc[p] = d
		}
		doc = d
	}
	doc[ps[len(ps)-1]] = v
}

func pick(doc map[string]interface{}, path string) interface{} {
	ps := strings.Split(path, ".")
	for _, p := range ps[:len(ps)-1] {
		d, ok := doc[p].(map[string]interface{})
		if !ok {
			return nil
		}
		doc = d
	}
	return doc[ps[len(ps)-1]]
}

func same(got, want interface{}) bool {
	switch w := want.(type) {
	case nil:
		if m, ok := got.(map[string]interface{}); ok {
			return len(m) == 0
		}
		return got == nil
	case string:
		g, ok := got.(string)
		return ok && g == w
	case bool:
		g, ok := got.(bool)
		return ok && g == w
	case int64:
		g, ok := got.(float64)
		return ok && int64(g) == w
	case map[string]string:
		m, ok := got.(map[string]interface{})
		if !ok || len(m) != len(w) {
			return false
		}
		for k, v := range w {
			if fmt.Sprint(m[k]) != v {
				return false
			}
		}
		return true
	}
	return false
}

// TestX01_Save gives every setting by flag, environment, configuration file or
// not at all and compares what is saved with what was given.
func TestX01_Save(t *testing.T) {
	ic, ec := wallets()
	pbt.Check(t, 12, "settings were given in at least two ways", func(t *rapid.T, c *pbt.Case) {
		scratch, err := os.MkdirTemp("", "save")
		if err != nil {
			t.Fatalf("%v", err)
		}
		defer os.RemoveAll(scratch)
		dir := filepath.Join(scratch, "work")
		if err := os.Mkdir(dir, 0700); err != nil {
			t.Fatalf("%v", err)
		}
		if err := os.Mkdir(filepath.Join(dir, "sub"), 0700); err != nil {
			t.Fatalf("%v", err)
		}
		var args, env []string
		file := map[string]interface{}{}
		want := map[string]interface{}{}
		ways := map[string]bool{}
		for _, s := range settings {
			want[s.name] = s.def
			rank := 0
			for i, way := range []string{"file", "env", "flag"} {
				if rapid.IntRange(0, 3).Draw(t, s.name+way) != 0 {
					continue
				}
				v := s.gen(t, s.name)
				ways[way] = true
				switch way {
				case "file":
					put(file, s.name, v)
				case "env":
					env = append(env, "BTP2_"+strings.ToUpper(strings.ReplaceAll(s.name, ".", "_"))+"="+asText(v))
				case "flag":
					args = append(args, "--"+s.name+"="+asText(v))
				}
				if i+1 > rank {
					rank = i + 1
					want[s.name] = v
				}
			}
		}
		// key stores and passwords
		type wal struct {
			acct   *account
			pw     string
			broken bool
		}
		ws := map[string]*wal{}
		refuse := ""
		for _, side := range []string{"src", "dst"} {
			w := &wal{}
			ws[side] = w
			switch rapid.SampledFrom([]string{"new", "icon", "eth"}).Draw(t, side+"ks") {
			case "icon":
				w.acct = &ic[rapid.IntRange(0, 2).Draw(t, side+"acct")]
			case "eth":
				w.acct = &ec[rapid.IntRange(0, 2).Draw(t, side+"acct")]
			}
			w.pw = rapid.SampledFrom([]string{"", "some password", "p\nq"}).Draw(t, side+"pw")
			if w.acct != nil {
				w.pw = w.acct.pw
				if rapid.IntRange(0, 9).Draw(t, side+"wrong") == 0 {
					w.pw += "?"
					refuse = side + " wrong password"
				}
				if rapid.Bool().Draw(t, side+"inline") {
					put(file, side+".key_store", json.RawMessage(w.acct.ks))
				} else {
					f := filepath.Join(dir, side+"ks.json")
					if err := os.WriteFile(f, w.acct.ks, 0600); err != nil {
						t.Fatalf("%v", err)
					}
					args = append(args, "--"+side+".key_store="+f)
				}
			}
			how := rapid.SampledFrom([]string{"secret", "flag", "file", "env"}).Draw(t, side+"how")
			switch {
			case how == "secret":
				f := filepath.Join(dir, side+"secret")
				if err := os.WriteFile(f, []byte(w.pw), 0600); err != nil {
					t.Fatalf("%v", err)
				}
				if rapid.IntRange(0, 9).Draw(t, side+"missing") == 0 {
					_ = os.Remove(f)
					refuse = side + " missing secret"
				}
				// the secret file is taken before a password
				switch rapid.IntRange(0, 5).Draw(t, side+"also") {
				case 0:
					args = append(args, "--"+side+".key_password=not the password")
				case 1:
					put(file, side+".key_password", "not the password")
				}
				args = append(args, "--"+side+".key_secret="+f)
				want[side+".key_secret"] = f
			case w.pw == "":
			case how == "flag":
				args = append(args, "--"+side+".key_password="+w.pw)
			case how == "file":
				put(file, side+".key_password", w.pw)
			case how == "env":
				env = append(env, "BTP2_"+strings.ToUpper(side)+"_KEY_PASSWORD="+w.pw)
			}
		}
		logf := rapid.SampledFrom([]string{"", "", "relay.log", "sub/relay.log", filepath.Join(dir, "x", "relay.log")}).Draw(t, "log")
		if logf != "" {
			args = append(args, "--log_writer.filename="+logf)
		}
		based := rapid.SampledFrom([]string{"", "", "data", "sub/data"}).Draw(t, "base")
		if based != "" {
			args = append(args, "--base_dir="+based)
		}
		if len(file) > 0 {
			b, _ := json.Marshal(file)
			f := filepath.Join(dir, "given.json")
			if err := os.WriteFile(f, b, 0600); err != nil {
				t.Fatalf("%v", err)
			}
			args = append(args, "-c", f)
		}
		// the key stores are also saved on their own where that is asked for
		own := map[string]string{}
		for _, side := range []string{"src", "dst"} {
			if f := rapid.SampledFrom([]string{"", side + ".ks", "keys/" + side + ".ks"}).Draw(t, side+"own"); f != "" {
				own[side] = f
				args = append(args, "--save_"+side+"_key_store="+f)
			}
		}
		target := rapid.SampledFrom([]string{"saved.json", "sub/saved.json"}).Draw(t, "target")
		c.Key("%v %v %s", want, target, refuse)
		c.NonTrivial(len(ways) > 1)
		c.Label(map[bool]string{true: "refused", false: "saved"}[refuse != ""])
		cmd := exec.Command(relayBin, append([]string{"save", target}, args...)...)
		cmd.Dir = dir
		cmd.Env = append([]string{"HOME=" + dir, "PATH=/usr/bin:/bin"}, env...)
		out, err := cmd.CombinedOutput()
		if refuse != "" {
			if err == nil {
				t.Fatalf("saved although the key store cannot be opened or the password is missing: %s", refuse)
			}
			return
		}
		if err != nil {
			t.Fatalf("save: %v %s", err, tail(string(out)))
		}
		b, err := os.ReadFile(filepath.Join(dir, target))
		if err != nil {
			t.Fatalf("%v", err)
		}
		var doc map[string]interface{}
		if err := json.Unmarshal(b, &doc); err != nil {
			t.Fatalf("what was saved is not JSON: %v", err)
		}
		for _, s := range settings {
			if got := pick(doc, s.name); !same(got, want[s.name]) {
				t.Fatalf("setting %s was given as %v and saved as %v", s.name, want[s.name], got)
			}
		}
		abs := func(p string) string {
			if filepath.IsAbs(p) {
				return filepath.Clean(p)
			}
			return filepath.Join(dir, p)
		}
		savedDir := filepath.Dir(filepath.Join(dir, target))
		if got, _ := pick(doc, "log_writer.filename").(string); logf == "" && got != "" ||
			logf != "" && filepath.Join(savedDir, got) != abs(logf) {
			t.Fatalf("log file %q was saved as %q in %s", logf, got, target)
		}
		if based != "" {
			if got, _ := doc["base_dir"].(string); filepath.Join(savedDir, got) != abs(based) {
				t.Fatalf("base directory %q was saved as %q in %s", based, got, target)
			}
		}
		for _, side := range []string{"src", "dst"} {
			w := ws[side]
			if v := pick(doc, side+".key_password"); v != nil && v != "" {
				t.Fatalf("the password of %s was saved", side)
			}
			if s, ok := want[side+".key_secret"]; ok && pick(doc, side+".key_secret") != s {
				t.Fatalf("the secret file of %s was saved as %v", side, pick(doc, side+".key_secret"))
			}
			ks, _ := json.Marshal(pick(doc, side+".key_store"))
			kw, err := wallet.DecryptKeyStore(ks, []byte(w.pw))
			if err != nil {
				t.Fatalf("the saved key store of %s does not open with its password: %v", side, err)
			}
			if w.acct != nil && kw.Address() != w.acct.addr {
				t.Fatalf("another key store was saved for %s", side)
			}
			if f := own[side]; f != "" {
				f = filepath.Join(dir, f)
				oks, err := os.ReadFile(f)
				if err != nil {
					t.Fatalf("the key store of %s was not saved on its own: %v", side, err)
				}
				if st, _ := os.Stat(f); st.Mode().Perm()&0077 != 0 {
					t.Fatalf("others may read the key store of %s (%v)", side, st.Mode())
				}
				ow, err := wallet.DecryptKeyStore(oks, []byte(w.pw))
				if err != nil {
					t.Fatalf("the key store of %s saved on its own does not open with its password: %v", side, err)
				}
				if ow.Address() != kw.Address() {
					t.Fatalf("the key store of %s saved on its own is of another account", side)
				}
			}
			if w.acct == nil && !strings.HasPrefix(kw.Address(), "hx") {
				t.Fatalf("generated account %s", kw.Address())
			}
		}
		// what was saved can be loaded and saved again
		args = []string{"save", "again.json", "-c", "saved.json"}
		for _, side := range []string{"src", "dst"} {
			if _, ok := want[side+".key_secret"]; !ok && ws[side].pw != "" {
				args = append(args, "--"+side+".key_password="+ws[side].pw)
			}
		}
		cmd = exec.Command(relayBin, args...)
		cmd.Dir = savedDir
		cmd.Env = []string{"HOME=" + dir, "PATH=/usr/bin:/bin"}
		if out, err := cmd.CombinedOutput(); err != nil {
			t.Fatalf("save again: %v %s", err, tail(string(out)))
		}
		b2, _ := os.ReadFile(filepath.Join(savedDir, "again.json"))
		var doc2 map[string]interface{}
		if err := json.Unmarshal(b2, &doc2); err != nil {
			t.Fatalf("what was saved again is not JSON: %v", err)
		}
		x, _ := json.Marshal(lower(doc))
		y, _ := json.Marshal(lower(doc2))
		if string(x) != string(y) {
			t.Fatalf("saving a saved configuration changes it:\n%s\n%s", x, y)
		}
	})
}

// lower folds the names of a key store, which are written in either case.
func lower(v interface{}) interface{} {
	switch x := v.(type) {
	case map[string]interface{}:
		out := map[string]interface{}{}
		for k, e := range x {
			out[strings.ToLower(k)] = lower(e)
		}
		return out
	case []interface{}:
		for i := range x {
			x[i] = lower(x[i])
		}
	}
	return v
}
