package icon

import (
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"sync"
	"testing"
	"time"

	"github.com/ethereum/go-ethereum/crypto"
	"golang.org/x/crypto/sha3"
	"pgregory.net/rapid"

	iconchain "github.com/icon-project/btp/chain/icon"
	"github.com/icon-project/btp/common/types"
	"github.com/icon-project/btp/common/wallet"

	"verif/gocheck/fake"
	"verif/gocheck/pbt"
)

// relayMsg is a relay message for a sender.
type relayMsg struct {
	id int
	b  []byte
}

func (r *relayMsg) Id() int       { return r.id }
func (r *relayMsg) Bytes() []byte { return r.b }
func (r *relayMsg) Size() int64   { return int64(len(r.b)) }

type txParam struct {
	Version   string          `json:"version"`
	From      string          `json:"from"`
	To        string          `json:"to"`
	StepLimit string          `json:"stepLimit"`
	Timestamp string          `json:"timestamp"`
	NID       string          `json:"nid"`
	Signature string          `json:"signature"`
	DataType  string          `json:"dataType"`
	Value     string          `json:"value"`
	Data      json.RawMessage `json:"data"`
}

type txData struct {
	Method string `json:"method"`
	Params struct {
		Prev string `json:"_prev"`
		Msg  string `json:"_msg"`
		Idx  string `json:"_idx"`
	} `json:"params"`
}

// txHashOf checks the signature of a transaction as a node does and returns its hash.
func txHashOf(params json.RawMessage, from string) (string, error) {
	var m map[string]interface{}
	if err := json.Unmarshal(params, &m); err != nil {
		return "", err
	}
	sigText, _ := m["signature"].(string)
	delete(m, "signature")
	h := sha3.Sum256([]byte("icx_sendTransaction." + dictRef(m)))
	sig, err := base64.StdEncoding.DecodeString(sigText)
	if err != nil || len(sig) != 65 {
		return "", fmt.Errorf("signature %q", sigText)
	}
	pub, err := crypto.Ecrecover(h[:], sig)
	if err != nil {
		return "", err
	}
	ph := sha3.Sum256(pub[1:])
	if "hx"+hex.EncodeToString(ph[12:]) != from {
		return "", fmt.Errorf("signed by another key than %s", from)
	}
	return "0x" + hex.EncodeToString(h[:]), nil
}

// sendScript says how the node treats one transaction, attempt by attempt;
// after the script it accepts.
type sendScript []string

// outcome says how an accepted transaction ends.
type outcome struct {
	pending int
	kind    string // success revert failure nodetail notfound
	code    int
}

type scenario struct {
	seed    uint64
	size    int
	scripts []sendScript
	out     outcome
	status  types.BMCLinkStatus
	badStat bool
	steps   int64
	w       wallet.Wallet
	src     types.BtpAddress
	dst     types.BtpAddress
	id      int
}

const refTxLimit = 382692 // ceil(512 KiB / 1.37)

func genScenario(t *rapid.T, slow bool) *scenario {
	s := &scenario{}
	s.seed = rapid.Uint64().Draw(t, "seed")
	s.size = rapid.OneOf(
		rapid.IntRange(0, 2000),
		rapid.SampledFrom([]int{0, 1, refTxLimit - 1, refTxLimit, refTxLimit + 1, 2*refTxLimit - 1, 2 * refTxLimit, 2*refTxLimit + 1, 3*refTxLimit + 5}),
		rapid.IntRange(refTxLimit-3, 4*refTxLimit),
	).Draw(t, "size")
	n := 1
	if s.size >= refTxLimit {
		n = s.size/refTxLimit + 1
	}
	acts := []string{"expired", "expired", "dup", "dupExpired", "fail"}
	if slow {
		acts = append(acts, "overflow", "overflow", "overflow2")
	}
	for i := 0; i < n; i++ {
		var sc sendScript
		if rapid.IntRange(0, 2).Draw(t, "scripted") == 0 {
			for k := rapid.IntRange(1, 2).Draw(t, "attempts"); k > 0; k-- {
				sc = append(sc, rapid.SampledFrom(acts).Draw(t, "act"))
			}
		}
		s.scripts = append(s.scripts, sc)
	}
	s.out.kind = rapid.SampledFrom([]string{"success", "success", "revert", "revert", "failure", "nodetail", "notfound"}).Draw(t, "outcome")
	if slow {
		s.out.pending = rapid.IntRange(0, 2).Draw(t, "pending")
	}
	switch s.out.kind {
	case "revert":
		s.out.code = rapid.OneOf(rapid.IntRange(0, 67), rapid.SampledFrom([]int{0, 1, 63, 64, 66, 67})).Draw(t, "rcode")
	case "failure":
		s.out.code = rapid.SampledFrom([]int{1, 2, 8, 31, 100, 200}).Draw(t, "fcode")
	}
	s.badStat = rapid.IntRange(0, 6).Draw(t, "badStat") == 0
	s.status.TxSeq = rapid.Int64Range(0, 1<<40).Draw(t, "tx")
	s.status.RxSeq = rapid.Int64Range(0, 1<<40).Draw(t, "rx")
	s.status.Verifier.Height = rapid.Int64Range(0, 1<<40).Draw(t, "vh")
	s.status.Verifier.Extra = rapid.SliceOfN(rapid.Byte(), 1, 8).Draw(t, "extra")
	s.steps = rapid.OneOf(rapid.Just(int64(0)), rapid.Int64Range(1, 1<<40)).Draw(t, "steps")
	s.w, _ = genWallet(t)
	s.src = types.BtpAddress(fmt.Sprintf("btp://0x%x.eth/0x%x", rapid.IntRange(1, 99).Draw(t, "snet"), rapid.SliceOfN(rapid.Byte(), 20, 20).Draw(t, "sacc")))
	s.dst = types.BtpAddress(fmt.Sprintf("btp://0x%x.icon/%s", rapid.IntRange(1, 99).Draw(t, "dnet"), genAddr(t, true)))
	s.id = rapid.IntRange(1, 1<<30).Draw(t, "id")
	return s
}

func (s *scenario) String() string {
	return fmt.Sprintf("size=%d scripts=%v outcome=%+v badStatus=%v id=%d", s.size, s.scripts, s.out, s.badStat, s.id)
}

func (s *scenario) message() []byte {
	b := make([]byte, s.size)
	x := s.seed | 1
	for i := range b {
		x ^= x << 13
		x ^= x >> 7
		x ^= x << 17
		b[i] = byte(x)
	}
	return b
}

// run plays the scenario and returns a description of what went wrong, or "".
func (s *scenario) run() string {
	msg := s.message()
	node := fake.NewNode()
	defer node.Close()
	var mtx sync.Mutex
	var accepted []txData
	var bad string
	lastHash := ""
	known := map[string]bool{}
	attempt, tx := 0, 0
	var prevStamp string
	expiredBefore := false
	polls := 0
	complain := func(f string, a ...interface{}) {
		if bad == "" {
			bad = fmt.Sprintf(f, a...)
		}
	}
	addr := s.w.Address()
	wantSteps := s.steps
	if wantSteps == 0 {
		wantSteps = iconchain.DefaultStepLimit
	}
	node.Handle = func(c *fake.Call) interface{} {
		mtx.Lock()
		defer mtx.Unlock()
		switch c.Method {
		case "icx_sendTransaction":
			var p txParam
			if err := json.Unmarshal(c.Params, &p); err != nil {
				complain("transaction %v", err)
			}
			h, err := txHashOf(c.Params, addr)
			if err != nil {
				complain("transaction %d is not validly signed: %v", tx, err)
			}
			if p.Version != "0x3" || p.From != addr || p.To != s.dst.Account() || p.NID != s.dst.NetworkID() ||
				p.StepLimit != fmt.Sprintf("0x%x", wantSteps) || p.DataType != "call" || p.Value != "" {
				complain("transaction fields version=%s from=%s to=%s nid=%s steps=%s type=%s value=%s", p.Version, p.From, p.To, p.NID, p.StepLimit, p.DataType, p.Value)
			}
			if expiredBefore && p.Timestamp == prevStamp {
				complain("an expired transaction was sent again with the same timestamp")
			}
			prevStamp, expiredBefore = p.Timestamp, false
			act := "accept"
			if tx >= len(s.scripts) {
				complain("more transactions than fragments")
				return &fake.RPCError{Code: -32602, Message: "E2005"}
			}
			if attempt < len(s.scripts[tx]) {
				act = s.scripts[tx][attempt]
			}
			attempt++
			switch act {
			case "overflow", "overflow2":
				return &fake.RPCError{Code: -31001, Message: "E2001:pool"}
			case "expired":
				expiredBefore = true
				return &fake.RPCError{Code: -31000, Message: "E2002:expired"}
			case "fail":
				return &fake.RPCError{Code: -32602, Message: "E2005:invalid"}
			case "dupExpired":
				return &fake.RPCError{Code: -31000, Message: "x"}
			}
			var d txData
			if err := json.Unmarshal(p.Data, &d); err != nil {
				complain("transaction data %v", err)
			}
			accepted = append(accepted, d)
			lastHash = h
			known[h] = true
			tx++
			attempt = 0
			if act == "dup" {
				// the node had it already (a lost answer, say)
				return &fake.RPCError{Code: -31000, Message: "E2000:duplicate"}
			}
			return h
		case "icx_getTransactionResult":
			var p struct {
				H string `json:"txHash"`
			}
			_ = json.Unmarshal(c.Params, &p)
			if p.H != lastHash {
				complain("result asked for %q, the last transaction is %q", p.H, lastHash)
				return &fake.RPCError{Code: -32602, Message: "E1000"}
			}
			polls++
			if polls <= s.out.pending {
				return &fake.RPCError{Code: -31002 - (polls+s.id)%2, Message: "E"}
			}
			res := map[string]interface{}{"status": "0x0", "txHash": p.H}
			switch s.out.kind {
			case "success":
				res["status"] = "0x1"
			case "revert":
				res["failure"] = map[string]interface{}{"code": fmt.Sprintf("0x%x", 32+s.out.code), "message": "Reverted"}
			case "failure":
				res["failure"] = map[string]interface{}{"code": fmt.Sprintf("0x%x", s.out.code), "message": "failed"}
			case "notfound":
				return &fake.RPCError{Code: -31004, Message: "E1005:NotFound"}
			}
			return res
		case "icx_call":
			var p struct {
				To   string `json:"to"`
				Data struct {
					Method string            `json:"method"`
					Params map[string]string `json:"params"`
				} `json:"data"`
			}
			_ = json.Unmarshal(c.Params, &p)
			if p.To != s.dst.Account() || p.Data.Method != "getStatus" || p.Data.Params["_link"] != string(s.src) {
				complain("status asked with %s", c.Params)
			}
			if s.badStat {
				return &fake.RPCError{Code: -30000, Message: "no"}
			}
			return map[string]interface{}{"tx_seq": fmt.Sprintf("0x%x", s.status.TxSeq), "rx_seq": fmt.Sprintf("0x%x", s.status.RxSeq),
				"verifier": map[string]interface{}{"height": fmt.Sprintf("0x%x", s.status.Verifier.Height), "extra": "0x" + hex.EncodeToString(s.status.Verifier.Extra)}}
		}
		complain("unexpected call %s", c.Method)
		return nil
	}
	opt := map[string]interface{}{}
	if s.steps != 0 {
		opt["StepLimit"] = s.steps
	}
	snd := iconchain.NewSender(s.src, s.dst, s.w, node.URL, opt, fake.Quiet())
	if snd.TxSizeLimit() > 524288 || snd.TxSizeLimit() < 100000 {
		return fmt.Sprintf("size limit %d", snd.TxSizeLimit())
	}
	ch, err := snd.Start()
	if err != nil {
		return err.Error()
	}
	// what should happen
	stopAt := -1
	for i, sc := range s.scripts {
		for _, a := range sc {
			if a == "fail" || a == "dupExpired" {
				stopAt = i
			}
			if a == "fail" || a == "dup" || a == "dupExpired" {
				break
			}
		}
		if stopAt >= 0 {
			break
		}
	}
	id, rerr := 0, error(nil)
	if !pbt.Within(60*time.Second, func() { id, rerr = snd.Relay(&relayMsg{s.id, msg}) }) {
		return "Relay did not return"
	}
	mtx.Lock()
	acc := append([]txData(nil), accepted...)
	b := bad
	mtx.Unlock()
	if b != "" {
		return b
	}
	// fragments
	var sb []byte
	for i, d := range acc {
		raw, err := base64.URLEncoding.DecodeString(d.Params.Msg)
		if err != nil {
			return fmt.Sprintf("fragment %d is not URL base64: %v", i, err)
		}
		if d.Params.Prev != string(s.src) {
			return fmt.Sprintf("fragment %d names %s as previous", i, d.Params.Prev)
		}
		if len(d.Params.Msg) > 524288 {
			return fmt.Sprintf("fragment %d carries %d characters", i, len(d.Params.Msg))
		}
		sb = append(sb, raw...)
		if len(s.scripts) == 1 {
			if d.Method != "handleRelayMessage" {
				return fmt.Sprintf("a message of %d bytes was sent with %s", s.size, d.Method)
			}
		} else {
			wantIdx := fmt.Sprintf("0x%x", len(s.scripts)-1-i)
			if i == 0 {
				wantIdx = fmt.Sprintf("-0x%x", len(s.scripts)-1)
			}
			if d.Method != "handleFragment" || d.Params.Idx != wantIdx {
				return fmt.Sprintf("fragment %d of %d sent with %s index %s, want index %s", i, len(s.scripts), d.Method, d.Params.Idx, wantIdx)
			}
		}
	}
	if stopAt >= 0 {
		if rerr == nil {
			return fmt.Sprintf("the node refused transaction %d but Relay reported success", stopAt)
		}
		if len(acc) != stopAt {
			return fmt.Sprintf("the node refused transaction %d but %d were sent", stopAt, len(acc))
		}
		if !bytes.HasPrefix(msg, sb) {
			return "the fragments sent before the refusal are not a prefix of the message"
		}
		select {
		case m := <-ch:
			return fmt.Sprintf("a message %T that was never sent has a result", m)
		case <-time.After(5 * time.Millisecond):
		}
		return ""
	}
	if rerr != nil {
		return fmt.Sprintf("Relay failed: %v", rerr)
	}
	if id != s.id {
		return fmt.Sprintf("Relay returned id %d for message %d", id, s.id)
	}
	if len(acc) != len(s.scripts) || !bytes.Equal(sb, msg) {
		return fmt.Sprintf("%d transactions reassemble to %d bytes, the message has %d in %d fragments (equal=%v)", len(acc), len(sb), len(msg), len(s.scripts), bytes.Equal(sb, msg))
	}
	// the result
	if s.out.kind == "revert" {
		select {
		case m := <-ch:
			rr, ok := m.(*types.RelayResult)
			if !ok {
				return fmt.Sprintf("the message was reverted with %d, got %T first", s.out.code, m)
			}
			if rr.Id != s.id || int(rr.Err) != s.out.code {
				return fmt.Sprintf("message %d was reverted with %d, result says %d with %d", s.id, s.out.code, rr.Id, rr.Err)
			}
		case <-time.After(30 * time.Second):
			return fmt.Sprintf("no result for a message reverted with %d", s.out.code)
		}
	}
	if s.badStat {
		select {
		case m := <-ch:
			return fmt.Sprintf("status query failed, but %T arrived", m)
		case <-time.After(time.Duration(s.out.pending)*1100*time.Millisecond + 100*time.Millisecond):
		}
	} else {
		select {
		case m := <-ch:
			st, ok := m.(*types.BMCLinkStatus)
			if !ok {
				return fmt.Sprintf("%s ended with %T instead of a status", s.out.kind, m)
			}
			if st == nil || st.TxSeq != s.status.TxSeq || st.RxSeq != s.status.RxSeq || st.Verifier.Height != s.status.Verifier.Height || !bytes.Equal(st.Verifier.Extra, s.status.Verifier.Extra) {
				return fmt.Sprintf("status %+v arrived as %+v", s.status, st)
			}
		case <-time.After(30 * time.Second):
			return "no status after the result"
		}
	}
	mtx.Lock()
	defer mtx.Unlock()
	return bad
}

func senderCase(t *rapid.T, c *pbt.Case, slow bool, n int) {
	var ss []*scenario
	for i := rapid.IntRange(1, n).Draw(t, "n"); i > 0; i-- {
		ss = append(ss, genScenario(t, slow))
	}
	res := make([]string, len(ss))
	var wg sync.WaitGroup
	for i := range ss {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			res[i] = ss[i].run()
		}(i)
	}
	wg.Wait()
	for i, s := range ss {
		c.Key("%s", s)
		c.Label("fragments=%d", len(s.scripts))
		c.Label("outcome=%s", s.out.kind)
		for _, sc := range s.scripts {
			for _, a := range sc {
				c.Label("reaction=%s", a)
			}
			c.NonTrivial(len(sc) > 0)
		}
		c.NonTrivial(len(s.scripts) > 1 || s.out.kind != "success")
		if res[i] != "" {
			t.Fatalf("%s: %s", s, res[i])
		}
	}
}

func TestR01_Sender(t *testing.T) {
	pbt.Check(t, 40, "the message is fragmented, or the node rejects an attempt or the transaction fails", func(t *rapid.T, c *pbt.Case) {
		senderCase(t, c, false, 3)
	})
}

// TestR01_Waiting has the reactions the sender answers by waiting a second.
func TestR01_Waiting(t *testing.T) {
	pbt.Check(t, 2, "the message is fragmented, or the node rejects an attempt or the transaction fails", func(t *rapid.T, c *pbt.Case) {
		senderCase(t, c, true, 24)
	})
}
