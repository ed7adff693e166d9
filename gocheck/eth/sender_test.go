// Package eth checks the sender for Ethereum networks.
package eth

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	ethtypes "github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
	"pgregory.net/rapid"

	"github.com/icon-project/btp/chain/ethbr"
	"github.com/icon-project/btp/common/types"
	"github.com/icon-project/btp/common/wallet"

	"verif/gocheck/fake"
	"verif/gocheck/pbt"
)

type relayMsg struct {
	id int
	b  []byte
}

func (r *relayMsg) Id() int       { return r.id }
func (r *relayMsg) Bytes() []byte { return r.b }
func (r *relayMsg) Size() int64   { return int64(len(r.b)) }

type verifier struct {
	Height *big.Int
	Extra  []byte
}

type linkStats struct {
	RxSeq, TxSeq  *big.Int
	Verifier      verifier
	CurrentHeight *big.Int
}

type one struct {
	id      int
	msg     []byte
	outcome string
	code    int
	text    string
	pending int
}

type plan struct {
	key     []byte
	chainID int64
	nonce   uint64
	src     types.BtpAddress
	dst     types.BtpAddress
	to      common.Address
	stats   linkStats
	badStat bool
	msgs    []one
}

func genPlan(t *rapid.T, slow bool) *plan {
	p := &plan{}
	p.key = rapid.SliceOfN(rapid.Byte(), 32, 32).Draw(t, "key")
	p.key[0] &= 0x7f
	p.key[31] |= 1
	p.chainID = rapid.SampledFrom([]int64{1, 56, 97, 1337, 1 << 40}).Draw(t, "chain")
	p.nonce = uint64(rapid.IntRange(0, 1<<20).Draw(t, "nonce"))
	acc := rapid.SliceOfN(rapid.Byte(), 20, 20).Draw(t, "dacc")
	p.to = common.BytesToAddress(acc)
	p.src = types.BtpAddress(fmt.Sprintf("btp://0x%x.icon/cx%040x", rapid.IntRange(1, 99).Draw(t, "snet"), rapid.IntRange(0, 1<<30).Draw(t, "sacc")))
	p.dst = types.BtpAddress(fmt.Sprintf("btp://0x%x.bsc/%s", p.chainID, p.to.Hex()))
	i64 := func(n string) *big.Int { return big.NewInt(rapid.Int64Range(0, 1<<50).Draw(t, n)) }
	p.stats = linkStats{i64("rx"), i64("tx"), verifier{i64("vh"), rapid.SliceOfN(rapid.Byte(), 0, 70).Draw(t, "extra")}, i64("cur")}
	p.badStat = rapid.IntRange(0, 6).Draw(t, "badStat") == 0
	for k := rapid.IntRange(1, 3).Draw(t, "msgs"); k > 0; k-- {
		m := one{id: rapid.IntRange(1, 1<<30).Draw(t, "id")}
		size := rapid.OneOf(rapid.IntRange(0, 200), rapid.SampledFrom([]int{0, 31, 32, 33, 4096, 382692})).Draw(t, "size")
		m.msg = make([]byte, size)
		x := rapid.Uint64().Draw(t, "seed") | 1
		for i := range m.msg {
			x ^= x << 13
			x ^= x >> 7
			x ^= x << 17
			m.msg[i] = byte(x)
		}
		m.outcome = rapid.SampledFrom([]string{"success", "success", "revert", "revert", "revert", "nocode", "replayed", "notfound", "noreceipt", "badcode", "sendfail", "onepart"}).Draw(t, "outcome")
		m.code = rapid.OneOf(rapid.IntRange(0, 60), rapid.IntRange(0, 1000)).Draw(t, "code")
		m.text = rapid.SampledFrom([]string{"InvalidSN", "x: y: z", "", "a:b", "12"}).Draw(t, "text")
		if slow && rapid.IntRange(0, 1).Draw(t, "wait") == 0 {
			m.pending = rapid.IntRange(1, 2).Draw(t, "pending")
		}
		p.msgs = append(p.msgs, m)
	}
	return p
}

func (p *plan) String() string {
	s := fmt.Sprintf("chain=%d nonce=%d badStat=%v", p.chainID, p.nonce, p.badStat)
	for _, m := range p.msgs {
		s += fmt.Sprintf(" %d:%d:%s:%d:%s:%d", m.id, len(m.msg), m.outcome, m.code, m.text, m.pending)
	}
	return s
}

func (p *plan) run() string {
	sk, err := crypto.ToECDSA(p.key)
	if err != nil {
		return err.Error()
	}
	from := crypto.PubkeyToAddress(sk.PublicKey)
	w, err := wallet.NewEvmWalletFromPrivateKey(sk)
	if err != nil {
		return err.Error()
	}
	n := fake.NewEthNode(p.chainID, 1)
	defer n.Close()
	n.Mine(nil)
	var mtx sync.Mutex
	bad := ""
	complain := func(f string, a ...interface{}) {
		if bad == "" {
			bad = fmt.Sprintf(f, a...)
		}
	}
	cur := -1
	var sent []*ethtypes.Transaction
	var last *ethtypes.Transaction
	polls := 0
	n.Nonce = p.nonce
	n.Send = func(tx *ethtypes.Transaction) *fake.RPCError {
		mtx.Lock()
		defer mtx.Unlock()
		m := p.msgs[cur]
		if m.outcome == "sendfail" {
			return &fake.RPCError{Code: -32000, Message: "insufficient funds"}
		}
		sent = append(sent, tx)
		last = tx
		polls = 0
		if tx.ChainId().Int64() != p.chainID {
			complain("transaction for chain %v, the chain is %d", tx.ChainId(), p.chainID)
		}
		f, err := ethtypes.Sender(ethtypes.LatestSignerForChainID(big.NewInt(p.chainID)), tx)
		if err != nil || f != from {
			complain("the transaction is signed by another account: %v", err)
		}
		if tx.To() == nil || *tx.To() != p.to {
			complain("the transaction goes to another contract")
		}
		if tx.Value().Sign() != 0 || tx.Nonce() != p.nonce {
			complain("the transaction moves %v or has nonce %d instead of %d", tx.Value(), tx.Nonce(), p.nonce)
		}
		want, err := fake.BMC.Pack("handleRelayMessage", string(p.src), m.msg)
		if err != nil {
			complain("%v", err)
		}
		if !bytes.Equal(tx.Data(), want) {
			complain("the transaction does not hand the relay message of %d bytes to handleRelayMessage", len(m.msg))
		}
		return nil
	}
	n.Tx = func(h common.Hash) interface{} {
		mtx.Lock()
		defer mtx.Unlock()
		m := p.msgs[cur]
		if last == nil || h != last.Hash() {
			complain("asked for another transaction than the one sent")
			return nil
		}
		polls++
		if m.outcome == "notfound" && polls > m.pending {
			return nil
		}
		b, _ := last.MarshalJSON()
		out := map[string]interface{}{}
		_ = json.Unmarshal(b, &out)
		out["from"] = from
		if polls > m.pending {
			out["blockNumber"] = "0x1"
			out["blockHash"] = common.HexToHash("0x1")
		}
		return out
	}
	n.Receipt = func(h common.Hash) interface{} {
		mtx.Lock()
		defer mtx.Unlock()
		m := p.msgs[cur]
		if last == nil || h != last.Hash() {
			complain("asked for the receipt of another transaction than the one sent")
			return nil
		}
		if polls <= m.pending {
			complain("asked for the receipt of a pending transaction")
		}
		st := uint64(0)
		switch m.outcome {
		case "noreceipt":
			return nil
		case "success":
			st = 1
		}
		r := &ethtypes.Receipt{Status: st, TxHash: h, BlockNumber: big.NewInt(1), Logs: []*ethtypes.Log{}}
		b, _ := json.Marshal(r)
		out := map[string]interface{}{}
		_ = json.Unmarshal(b, &out)
		return out
	}
	n.Call = func(to common.Address, data []byte) (hexutil.Bytes, *fake.RPCError) {
		mtx.Lock()
		defer mtx.Unlock()
		if to != p.to {
			complain("another contract was called")
		}
		if want, _ := fake.BMC.Pack("getStatus", string(p.src)); bytes.Equal(data, want) {
			if p.badStat {
				return nil, &fake.RPCError{Code: -32000, Message: "execution reverted"}
			}
			b, err := fake.BMC.Methods["getStatus"].Outputs.Pack(p.stats)
			if err != nil {
				complain("pack: %v", err)
			}
			return b, nil
		}
		m := p.msgs[cur]
		if last == nil || !bytes.Equal(data, last.Data()) {
			complain("an unknown call of %d bytes", len(data))
			return nil, &fake.RPCError{Code: -32000, Message: "no"}
		}
		switch m.outcome {
		case "revert":
			return nil, &fake.RPCError{Code: 3, Message: fmt.Sprintf("execution reverted: %d:%s", m.code, m.text)}
		case "badcode":
			return nil, &fake.RPCError{Code: 3, Message: "execution reverted: oops: something"}
		case "onepart":
			return nil, &fake.RPCError{Code: 3, Message: "execution reverted: " + strings.ReplaceAll(m.text, ":", "")}
		case "nocode":
			return nil, &fake.RPCError{Code: 3, Message: "execution reverted"}
		}
		return hexutil.Bytes{}, nil
	}
	snd := ethbr.NewSender(p.src, p.dst, w, n.URL, nil, fake.Quiet())
	if l := snd.TxSizeLimit(); l < 100000 || l > 524288 || snd.GetMarginForLimit() < 0 || snd.GetMarginForLimit() > int64(l)/2 {
		return fmt.Sprintf("size limit %d with margin %d", l, snd.GetMarginForLimit())
	}
	ch, err := snd.Start()
	if err != nil {
		return err.Error()
	}
	same := func(st *types.BMCLinkStatus) bool {
		return st != nil && st.TxSeq == p.stats.TxSeq.Int64() && st.RxSeq == p.stats.RxSeq.Int64() &&
			st.Verifier.Height == p.stats.Verifier.Height.Int64() && bytes.Equal(st.Verifier.Extra, p.stats.Verifier.Extra)
	}
	st, err := snd.GetStatus()
	if p.badStat != (err != nil) || err == nil && !same(st) {
		return fmt.Sprintf("status of the link: %+v %v", st, err)
	}
	for i := range p.msgs {
		m := p.msgs[i]
		mtx.Lock()
		cur = i
		before := len(sent)
		mtx.Unlock()
		var id int
		var rerr error
		if !pbt.Within(60*time.Second, func() { id, rerr = snd.Relay(&relayMsg{m.id, m.msg}) }) {
			return "Relay does not return"
		}
		mtx.Lock()
		k := len(sent) - before
		mtx.Unlock()
		if m.outcome == "sendfail" {
			if rerr == nil {
				return "the node refused the transaction, Relay reported success"
			}
			select {
			case x := <-ch:
				return fmt.Sprintf("a message that was never sent has a result %T", x)
			case <-time.After(3 * time.Millisecond):
			}
			continue
		}
		if rerr != nil || id != m.id {
			return fmt.Sprintf("Relay of message %d: %d %v", m.id, id, rerr)
		}
		if k != 1 {
			return fmt.Sprintf("%d transactions were sent for one relay message", k)
		}
		want := -1
		switch m.outcome {
		case "revert":
			want = m.code
		case "nocode", "replayed", "onepart":
			want = 25
		}
		if want >= 0 {
			select {
			case x := <-ch:
				rr, ok := x.(*types.RelayResult)
				if !ok {
					return fmt.Sprintf("the message failed with %d, got %T first", want, x)
				}
				if rr.Id != m.id || int(rr.Err) != want {
					return fmt.Sprintf("message %d failed with %d, the result says %d failed with %d", m.id, want, rr.Id, rr.Err)
				}
			case <-time.After(30 * time.Second):
				return fmt.Sprintf("no result for a message that failed with %d", want)
			}
		}
		if p.badStat {
			select {
			case x := <-ch:
				return fmt.Sprintf("the status query failed, but %T arrived", x)
			case <-time.After(time.Duration(m.pending)*1100*time.Millisecond + 60*time.Millisecond):
			}
		} else {
			select {
			case x := <-ch:
				st, ok := x.(*types.BMCLinkStatus)
				if !ok {
					return fmt.Sprintf("%s ended with %T instead of a status", m.outcome, x)
				}
				if !same(st) {
					return fmt.Sprintf("status %+v arrived as %+v", p.stats, st)
				}
			case <-time.After(30 * time.Second):
				return fmt.Sprintf("no status after %s", m.outcome)
			}
		}
	}
	select {
	case x := <-ch:
		return fmt.Sprintf("a second result %T", x)
	case <-time.After(2 * time.Millisecond):
	}
	mtx.Lock()
	defer mtx.Unlock()
	if bad != "" {
		return bad
	}
	if c := n.Complaints(); len(c) > 0 {
		return fmt.Sprintf("requests the node does not understand: %v", c)
	}
	return ""
}

const rule = "a transaction was reverted, could not be sent, or had to be waited for"

func play(t *rapid.T, c *pbt.Case, slow bool) {
	p := genPlan(t, slow)
	c.Key("%s", p)
	for _, m := range p.msgs {
		c.NonTrivial(m.outcome != "success" || m.pending > 0)
		c.Label(m.outcome)
	}
	if s := p.run(); s != "" {
		t.Fatalf("%s", s)
	}
}

func TestR05_Relay(t *testing.T) {
	pbt.Check(t, 150, rule, func(t *rapid.T, c *pbt.Case) { play(t, c, false) })
}

// TestR05_Pending waits for transactions, so many plans run at once.
func TestR05_Pending(t *testing.T) {
	pbt.Check(t, 2, rule, func(t *rapid.T, c *pbt.Case) {
		var ps []*plan
		for i := 0; i < 12; i++ {
			p := genPlan(t, true)
			ps = append(ps, p)
			c.Key("%s", p)
		}
		c.NonTrivial(true)
		res := make([]string, len(ps))
		var wg sync.WaitGroup
		for i := range ps {
			i := i
			wg.Add(1)
			go func() { defer wg.Done(); res[i] = ps[i].run() }()
		}
		wg.Wait()
		for _, r := range res {
			if r != "" {
				t.Fatalf("%s", r)
			}
		}
	})
}
