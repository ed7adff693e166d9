package base

import (
	"encoding/json"
	stderrors "errors"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/icon-project/btp/common/config"
	"github.com/icon-project/btp/common/errors"
	"github.com/icon-project/btp/common/types"
	pkgerrors "github.com/pkg/errors"
	"pgregory.net/rapid"

	"verif/gocheck/pbt"
)

type ownError struct{ n int }

func (e *ownError) Error() string { return fmt.Sprintf("own %d", e.n) }

// An error built by any sequence of the constructors keeps the code set last,
// its message, and every error it wraps.
func TestE01_ErrorChain(t *testing.T) {
	pbt.Check(t, 1500, "the chain has at least two layers", func(t *rapid.T, c *pbt.Case) {
		code := rapid.Map(rapid.IntRange(-5, 5000), func(i int) errors.Code { return errors.Code(i) })
		msg := rapid.StringMatching(`[a-zA-Z %:]{0,12}`)
		var e error
		coded := false
		var want errors.Code // code of the outermost coded layer
		var text string
		var all []error
		var own *ownError
		switch k := rapid.IntRange(0, 6).Draw(t, "root"); k {
		case 0:
			text = msg.Draw(t, "m")
			e = errors.New(text)
		case 1:
			text = "own 7"
			own = &ownError{7}
			e = own
		case 2:
			want, text, coded = code.Draw(t, "c"), msg.Draw(t, "m"), true
			e = errors.NewBase(want, text)
		case 3:
			want, text, coded = code.Draw(t, "c"), msg.Draw(t, "m"), true
			e = errors.Errorc(want, text)
		case 4:
			want, coded = code.Draw(t, "c"), true
			a := rapid.Int().Draw(t, "arg")
			text = fmt.Sprintf("v=%d", a)
			e = want.Errorf("v=%d", a)
		case 5:
			want, text, coded = code.Draw(t, "c"), msg.Draw(t, "m"), true
			e = want.New(text)
		default:
			text = "std"
			e = stderrors.New("std")
		}
		all = append(all, e)
		n := rapid.IntRange(0, 5).Draw(t, "layers")
		c.NonTrivial(n > 0)
		ops := []string{text}
		outer := text
		for i := 0; i < n; i++ {
			cc, m := code.Draw(t, "c"), msg.Draw(t, "m")
			op := rapid.IntRange(0, 8).Draw(t, "op")
			ops = append(ops, fmt.Sprintf("%d/%d/%q", op, cc, m))
			switch op {
			case 0:
				e, text = errors.Wrap(e, m), m
			case 1:
				e, text = errors.Wrapf(e, "%s!", m), m+"!"
			case 2:
				e, text, want, coded = errors.Wrapc(e, cc, m), m, cc, true
			case 3:
				e, text, want, coded = errors.Wrapcf(e, cc, "%s!", m), m+"!", cc, true
			case 4:
				e, want, coded = errors.WithCode(e, cc), cc, true
			case 5:
				e = errors.WithStack(e)
			case 6:
				e, text, want, coded = cc.Wrap(e, m), m, cc, true
			case 7:
				e, text, want, coded = cc.Wrapf(e, "%s!", m), m+"!", cc, true
			default:
				e, text = pkgerrors.Wrap(e, m), m+": "+text
				outer = m
			}
			if op != 8 && op != 4 && op != 5 {
				outer = text
			}
			all = append(all, e)
		}
		c.Key("%v", ops)
		if e.Error() != text {
			t.Fatalf("message %q, want %q", e.Error(), text)
		}
		wc := want
		if !coded {
			wc = errors.UnknownError
		}
		if got := errors.CodeOf(e); got != wc {
			t.Fatalf("code %d, want %d", got, wc)
		}
		cd, ok := errors.CoderOf(e)
		if ok != coded || ok && cd.ErrorCode() != want {
			t.Fatalf("coder %v %v, want %v", cd, ok, coded)
		}
		if !wc.Equals(e) || (wc + 1).Equals(e) || wc.Equals(nil) {
			t.Fatalf("code %d: Equals is wrong", wc)
		}
		if b := errors.NewBase(wc, "x"); !b.Equals(e) || b.Equals(nil) || errors.NewBase(wc+1, "x").Equals(e) {
			t.Fatalf("base error of code %d: Equals is wrong", wc)
		}
		for i, x := range all {
			if !errors.Is(e, x) {
				t.Fatalf("layer %d (%v) is not found in %v", i, x, e)
			}
		}
		if errors.Is(e, &ownError{7}) || errors.Is(e, errors.ErrTimeout) {
			t.Fatalf("%v is a foreign error", e)
		}
		var o *ownError
		if errors.AsValue(&o, e) != (own != nil) || o != own {
			t.Fatalf("AsValue found %v, want %v", o, own)
		}
		if errors.AsValue(&o, nil) || errors.AsValue("x", e) {
			t.Fatalf("AsValue accepts a wrong target")
		}
		// the printed form tells the code and the message
		s := fmt.Sprintf("%s", e)
		if !strings.Contains(s, text) && !strings.ContainsAny(text, "%") {
			t.Fatalf("%%s prints %q without %q", s, text)
		}
		if _, direct := e.(errors.ErrorCoder); direct {
			if s != fmt.Sprintf("E%04d:%s", want, text) {
				t.Fatalf("%%s prints %q for code %d message %q", s, want, text)
			}
			if v := fmt.Sprintf("%v", e); v != s {
				t.Fatalf("%%v prints %q, %%s %q", v, s)
			}
		}
		full := fmt.Sprintf("%+v", e)
		if !strings.Contains(full, strings.TrimSuffix(outer, ": ")) {
			t.Fatalf("%%+v prints %.80q... without %q", full, outer)
		}
	})
}

func TestE01_Nil(t *testing.T) {
	pbt.Check(t, 50, "a nil error is wrapped", func(t *rapid.T, c *pbt.Case) {
		k := rapid.IntRange(0, 3).Draw(t, "kind")
		c.Key("%d", k)
		c.NonTrivial(k > 0)
		if p := pbt.NoPanic(func() {
			var e error
			want := errors.UnknownError
			switch k {
			case 1:
				e = errors.Wrap(nil, "m")
			case 2:
				e = errors.Wrapc(nil, 3, "m")
				want = 3
			case 3:
				e = errors.WithStack(nil)
			}
			if errors.CodeOf(e) != want {
				t.Fatalf("code of %v is %d, want %d", e, errors.CodeOf(e), want)
			}
			var o *ownError
			if errors.AsValue(&o, e) {
				t.Fatalf("found %v", o)
			}
		}); p != "" {
			t.Fatalf("kind %d: %s", k, p)
		}
	})
}

// A BTP address is taken apart into exactly the parts it was made of.
func TestB01_BtpAddress(t *testing.T) {
	id := rapid.StringMatching(`[a-zA-Z0-9_\-]{0,12}`)
	id1 := rapid.StringMatching(`[a-zA-Z0-9_\-]{1,12}`)
	pbt.Check(t, 2000, "network id, chain and account are all present", func(t *rapid.T, c *pbt.Case) {
		proto := rapid.OneOf(rapid.Just("btp"), id).Draw(t, "proto")
		nid, chain, acc := id.Draw(t, "nid"), id1.Draw(t, "chain"), id.Draw(t, "acc")
		if rapid.Bool().Draw(t, "icon") {
			chain = rapid.SampledFrom([]string{"icon", "iconee", "eth", "hardhat", "Icon", "icon2"}).Draw(t, "chain2")
		}
		dot, slash := rapid.Bool().Draw(t, "dot"), rapid.IntRange(0, 4).Draw(t, "slash") > 0
		net := chain
		if dot {
			net = nid + "." + chain
		} else {
			nid = ""
		}
		s := proto + "://" + net
		if slash {
			s += "/" + acc
		} else {
			acc = ""
		}
		if proto == "" {
			net, nid, chain, acc = "", "", "", ""
		}
		c.Key("%s", s)
		c.NonTrivial(nid != "" && acc != "" && proto != "")
		var a types.BtpAddress
		if err := a.Set(s); err != nil {
			t.Fatal(err)
		}
		if a.String() != s || a.Protocol() != proto || a.NetworkAddress() != net || a.NetworkID() != nid || a.BlockChain() != chain ||
			a.Account() != acc || a.ContractAddress() != acc {
			t.Fatalf("%q: protocol %q network %q id %q chain %q account %q contract %q", s, a.Protocol(), a.NetworkAddress(), a.NetworkID(), a.BlockChain(), a.Account(), a.ContractAddress())
		}
		valid := proto == "btp" && (chain == "icon" || chain == "iconee") && acc != ""
		if err := types.ValidateBtpAddress(a); (err == nil) != valid {
			t.Fatalf("%q: validation %v, want valid=%v", s, err, valid)
		}
		b, err := json.Marshal(a)
		var a2 types.BtpAddress
		if err != nil || json.Unmarshal(b, &a2) != nil || a2 != a {
			t.Fatalf("%q: JSON %s %v gives %q", s, b, err, a2)
		}
	})
}

func TestB01_Hostile(t *testing.T) {
	pbt.Check(t, 1500, "text contains a separator", func(t *rapid.T, c *pbt.Case) {
		s := rapid.OneOf(rapid.String(), rapid.Map(rapid.SliceOfN(rapid.SampledFrom([]string{"btp", ":", "/", "://", ".", "icon", "0x1", "cx00", " "}), 0, 9),
			func(x []string) string { return strings.Join(x, "") })).Draw(t, "s")
		c.Key("%q", s)
		c.NonTrivial(strings.Contains(s, "://"))
		a := types.BtpAddress(s)
		var parts [5]string
		if p := pbt.NoPanic(func() {
			parts = [5]string{a.Protocol(), a.NetworkAddress(), a.NetworkID(), a.BlockChain(), a.Account()}
			valid := a.Protocol() == "btp" && (a.BlockChain() == "icon" || a.BlockChain() == "iconee") && a.Account() != ""
			if err := types.ValidateBtpAddress(a); err == nil && !valid || err != nil && valid && strings.TrimSpace(a.Account()) != "" {
				t.Fatalf("%q: validation %v, protocol %q chain %q account %q", s, err, a.Protocol(), a.BlockChain(), a.Account())
			}
			if a.Account() != a.ContractAddress() {
				t.Fatalf("%q: account %q, contract %q", s, a.Account(), a.ContractAddress())
			}
		}); p != "" {
			t.Fatalf("%q: %s", s, p)
		}
		if i := strings.Index(s, "://"); i <= 0 && strings.Join(parts[:], "") != "" {
			t.Fatalf("%q without protocol has parts %q", s, parts)
		}
		for _, p := range parts {
			if !strings.Contains(s, p) {
				t.Fatalf("%q has a part %q", s, p)
			}
		}
	})
}

type testConfig struct {
	config.FileConfig
	Name   string            `json:"name"`
	N      int64             `json:"n"`
	B      bool              `json:"b"`
	List   []string          `json:"list"`
	Labels map[string]string `json:"labels"`
	Raw    json.RawMessage   `json:"raw"`
}

// Configuration files: what is saved is what is loaded, paths resolve to the
// same place whatever form they are written in.
func TestF01_SaveLoad(t *testing.T) {
	seg := rapid.StringMatching(`[a-z]{1,5}`)
	pbt.Check(t, 300, "a shorter configuration overwrites a longer one, or a relative path is used", func(t *rapid.T, c *pbt.Case) {
		dir, err := os.MkdirTemp(os.Getenv("VERIF_TMP"), "cfg")
		if err != nil {
			t.Fatalf("VERIF-INCONCLUSIVE %v", err)
		}
		defer os.RemoveAll(dir)
		gen := func() *testConfig {
			cfg := &testConfig{Name: rapid.String().Draw(t, "name"), N: rapid.Int64().Draw(t, "n"), B: rapid.Bool().Draw(t, "b"),
				List:   rapid.SliceOfN(rapid.StringMatching(`.{0,8}`), 1, 5).Draw(t, "list"),
				Labels: rapid.MapOfN(seg, seg, 1, 4).Draw(t, "labels"), Raw: json.RawMessage(`{"x":[1,2,null]}`)}
			cfg.BaseDir = rapid.OneOf(rapid.Just(""), seg).Draw(t, "base")
			cfg.FilePath = filepath.Join(dir, "here.json")
			return cfg
		}
		name := filepath.Join(dir, "c.json")
		rel := rapid.Bool().Draw(t, "rel")
		if rel {
			name = "c.json" // relative to the configuration's own file
		}
		var last *testConfig
		sizes := []int64{}
		for i, n := 0, rapid.IntRange(1, 3).Draw(t, "saves"); i < n; i++ {
			last = gen()
			if err := config.Save(last, name); err != nil {
				t.Fatalf("save: %v", err)
			}
			if last.FilePath != filepath.Join(dir, "c.json") {
				t.Fatalf("file path after save is %q", last.FilePath)
			}
			st, err := os.Stat(filepath.Join(dir, "c.json"))
			if err != nil {
				t.Fatalf("saved elsewhere: %v", err)
			}
			sizes = append(sizes, st.Size())
		}
		c.NonTrivial(rel)
		for i := 1; i < len(sizes); i++ {
			c.NonTrivial(sizes[i] < sizes[i-1])
		}
		c.Key("%v %v %+v", rel, sizes, *last)
		got := &testConfig{}
		got.FilePath = filepath.Join(dir, "other.json")
		if err := config.Load(got, name); err != nil {
			t.Fatalf("load: %v", err)
		}
		a, _ := json.Marshal(last)
		b, _ := json.Marshal(got)
		if string(a) != string(b) || got.FilePath != last.FilePath || got.BaseDir != last.BaseDir {
			t.Fatalf("loaded %s (%s), saved %s (%s)", b, got.FilePath, a, last.FilePath)
		}
		if err := config.Load(&testConfig{}, filepath.Join(dir, "missing.json")); err == nil {
			t.Fatalf("loaded a missing file")
		}
	})
}

func TestF01_Paths(t *testing.T) {
	seg := rapid.SampledFrom([]string{"a", "b", "c", "..", ".", "dir x"})
	path := rapid.Map(rapid.SliceOfN(seg, 1, 5), func(s []string) string { return strings.Join(s, "/") })
	pbt.Check(t, 1500, "the target has a parent reference", func(t *rapid.T, c *pbt.Case) {
		var cfg config.FileConfig
		wd, _ := os.Getwd()
		if rapid.IntRange(0, 3).Draw(t, "file") > 0 {
			cfg.SetFilePath("/" + path.Draw(t, "dir") + "/f.json")
		}
		target := path.Draw(t, "target")
		abs := rapid.Bool().Draw(t, "abs")
		if rapid.IntRange(0, 7).Draw(t, "empty") == 0 {
			target, abs = "", false // the directory itself
		}
		if abs {
			target = "/" + target
		}
		c.Key("%s %s", cfg.FilePath, target)
		c.NonTrivial(strings.Contains(target, ".."))
		got := cfg.ResolveAbsolute(target)
		want := target
		if !abs {
			base := wd
			if cfg.FilePath != "" {
				base = filepath.Dir(cfg.FilePath)
			}
			want = filepath.Join(base, target)
		}
		if filepath.Clean(got) != filepath.Clean(want) || !filepath.IsAbs(got) {
			t.Fatalf("file %q: %q resolves to %q, want %q", cfg.FilePath, target, got, want)
		}
		if cfg.FilePath != "" {
			// absolute -> relative -> absolute is the identity
			r := cfg.ResolveRelative(got)
			if filepath.IsAbs(r) || filepath.Clean(cfg.ResolveAbsolute(r)) != filepath.Clean(got) {
				t.Fatalf("file %q: %q written relatively as %q resolves to %q", cfg.FilePath, got, r, cfg.ResolveAbsolute(r))
			}
		}
		cfg.BaseDir = target
		if cfg.AbsBaseDir() != got {
			t.Fatalf("base directory %q resolves to %q, want %q", target, cfg.AbsBaseDir(), got)
		}
	})
}
