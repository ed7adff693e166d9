package e2e

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync/atomic"
	"testing"
	"time"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	"pgregory.net/rapid"

	"verif/gocheck/fake"
	"verif/gocheck/pbt"
)

// TestR06_Ends starts the program with something missing: it has to end with
// an error instead of running without relaying, and must not send anything.
func TestR06_Ends(t *testing.T) {
	pbt.Check(t, 6, "a link could not start", func(t *rapid.T, c *pbt.Case) {
		w := &world{a: genSide(t, "a", 0), b: genSide(t, "b", 1)}
		w.a.peer, w.b.peer = w.b, w.a
		w.kill = func() {}
		direction := rapid.SampledFrom([]string{"both", "both", "front", "reverse"}).Draw(t, "direction")
		fault := rapid.SampledFrom([]string{"status", "status", "status", "start", "password", "direction", "flag", "chain", "keystore", "config"}).Draw(t, "fault")
		onA := rapid.Bool().Draw(t, "onA") // the faulty side
		if direction != "both" && fault == "status" {
			onA = direction == "reverse" // the destination
		}
		if direction != "both" && fault == "start" {
			onA = direction == "front" // the source
		}
		s := w.b
		if onA {
			s = w.a
		}
		if fault == "start" && s.kind == "eth" {
			fault = "password"
		}
		slow := rapid.IntRange(0, 2).Draw(t, "slow")
		c.Key("%s | %s | %s %s onA=%v slow=%d", w.a.describe(), w.b.describe(), direction, fault, onA, slow)
		c.Label(fault)
		c.NonTrivial(fault == "status" || fault == "start")
		scratch, err := os.MkdirTemp("", "e2e")
		if err != nil {
			t.Fatalf("%v", err)
		}
		defer os.RemoveAll(scratch)
		dir := filepath.Join(scratch, "work")
		if err := os.Mkdir(dir, 0700); err != nil {
			t.Fatalf("%v", err)
		}
		w.a.begin(w)
		defer w.a.stop()
		w.b.begin(w)
		defer w.b.stop()
		// nothing to relay, so nothing may be sent
		w.a.publish(0, 1)
		w.b.publish(0, 1)
		for _, x := range []*side{w.a, w.b} {
			if x.eth != nil {
				var n atomic.Int64
				x.eth.Delay = func(c *fake.Call) time.Duration {
					if c.Method == "eth_chainId" && int(n.Add(1)) == slow {
						return 150 * time.Millisecond
					}
					return 0
				}
			}
		}
		acct := s.acct
		switch fault {
		case "password":
			s.acct.pw = "another"
		case "direction":
			direction = rapid.SampledFrom([]string{"backward", "BOTH", "fron"}).Draw(t, "dir")
		case "keystore":
			s.acct.ks = []byte("{}")
		case "chain":
			s.addr = strings.NewReplacer(".icon/", ".nope/", ".eth/", ".nope/", ".hardhat/", ".nope/").Replace(s.addr)
			direction = "both"
		case "status":
			if s.eth != nil {
				s.eth.Call = func(to common.Address, data []byte) (hexutil.Bytes, *fake.RPCError) {
					return nil, &fake.RPCError{Code: -32000, Message: "execution reverted"}
				}
			} else {
				orig := s.icon.Handle
				s.icon.Handle = func(c *fake.Call) interface{} {
					if c.Method == "icx_call" && strings.Contains(string(c.Params), `"getStatus"`) {
						return &fake.RPCError{Code: -30032, Message: "no link"}
					}
					return orig(c)
				}
			}
		case "start":
			m := rapid.SampledFrom([]string{"btp_getNetworkInfo", "icx_call"}).Draw(t, "query")
			s.icon.Fail = func(c *fake.Call) *fake.RPCError {
				if c.Method == m {
					return &fake.RPCError{Code: -30032, Message: "no"}
				}
				return nil
			}
		}
		args := configure(t, dir, w, direction, fault == "password" || fault == "keystore")
		switch fault {
		case "flag":
			args = []string{"start", "--src.address", w.a.addr, "--src.endpoint", w.a.url(), "--dst.address", w.b.addr}
			args = args[:rapid.IntRange(0, 3).Draw(t, "flags")*2+1]
		case "config":
			f := filepath.Join(dir, "broken.json")
			if rapid.Bool().Draw(t, "exists") {
				_ = os.WriteFile(f, []byte(`{"src": {"address":`), 0600)
			}
			args = []string{"start", "-c", f}
		}
		_ = acct
		p, err := run(dir, args...)
		if err != nil {
			t.Fatalf("%v", err)
		}
		select {
		case <-p.exit:
		case <-time.After(8 * time.Second):
			p.kill()
			t.Fatalf("the program keeps running although a link cannot start (%s)", fault)
		}
		if p.cmd.ProcessState.Success() {
			t.Fatalf("the program ends without an error although a link cannot start (%s)", fault)
		}
		if out := p.out.String(); strings.Contains(out, "goroutine ") && strings.Contains(out, "panic:") && fault != "chain" {
			t.Fatalf("the program panics (%s): %s", fault, tail(out))
		}
		if w.a.txs+w.b.txs > 0 {
			t.Fatalf("something was sent (%s)", fault)
		}
		if f := w.failure(); f != "" && fault != "chain" {
			t.Fatalf("%s", f)
		}
		_ = fmt.Sprint
	})
}
