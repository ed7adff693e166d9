// Package e2e runs the relay program against fake networks.
package e2e

import (
	"bytes"
	"crypto/ecdsa"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/ethereum/go-ethereum/accounts/keystore"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	ethtypes "github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/gofrs/uuid"
	"pgregory.net/rapid"

	btpcrypto "github.com/icon-project/btp/common/crypto"
	"github.com/icon-project/btp/common/wallet"

	"verif/gocheck/fake"
	"verif/gocheck/pbt"
)

var relayBin string

func TestMain(m *testing.M) {
	dir, err := os.MkdirTemp("", "relay")
	if err != nil {
		fmt.Println("VERIF-INCONCLUSIVE", err)
		os.Exit(3)
	}
	relayBin = os.Getenv("VERIF_RELAY")
	if relayBin == "" {
		relayBin = filepath.Join(dir, "relay")
		src := os.Getenv("VERIF_SRC")
		if src == "" {
			src = "/verif/gocheck"
		}
		cmd := exec.Command("go", "build", "-o", relayBin, "github.com/icon-project/btp/cmd/relay")
		if raceBuild {
			cmd.Args = append([]string{"go", "build", "-race"}, cmd.Args[2:]...)
			cmd.Env = append(os.Environ(), "CGO_ENABLED=1")
		}
		cmd.Dir = src
		if out, err := cmd.CombinedOutput(); err != nil {
			fmt.Printf("VERIF-INCONCLUSIVE build: %v %s\n", err, out)
			os.Exit(3)
		}
	}
	c := m.Run()
	_ = os.RemoveAll(dir)
	os.Exit(c)
}

// account is a wallet with its key store.
type account struct {
	addr string
	pw   string
	ks   []byte
	key  []byte
}

var accounts = struct {
	sync.Once
	icon []account
	eth  []account
}{}

func wallets() ([]account, []account) {
	accounts.Do(func() {
		for i := 0; i < 3; i++ {
			pw := fmt.Sprintf("pw of %d", i)
			sk, pk := btpcrypto.GenerateKeyPair()
			ks, err := wallet.EncryptKeyAsKeyStore(sk, []byte(pw))
			if err != nil {
				panic(err)
			}
			_ = pk
			w, _ := wallet.NewIcxWalletFromPrivateKey(sk)
			accounts.icon = append(accounts.icon, account{w.Address(), pw, ks, sk.Bytes()})
			var ek *ecdsa.PrivateKey
			if ek, err = crypto.GenerateKey(); err != nil {
				panic(err)
			}
			id, _ := uuid.NewV4()
			key := &keystore.Key{Address: crypto.PubkeyToAddress(ek.PublicKey), PrivateKey: ek}
			copy(key.Id[:], id[:])
			ks, err = keystore.EncryptKey(key, pw, 2, 1)
			if err != nil {
				panic(err)
			}
			accounts.eth = append(accounts.eth, account{key.Address.Hex(), pw, ks, crypto.FromECDSA(ek)})
		}
	})
	return accounts.icon, accounts.eth
}

type block struct {
	h, sn int64
	msgs  [][]byte
	last  int64
}

// side is one of the two networks: the source of its own history and the
// destination of the other's.
type side struct {
	kind   string // btp bridge eth
	addr   string
	bmc    string
	acct   account
	opts   int64
	peer   *side
	start  int64
	blocks []*block
	icon   *fake.IconSource
	eth    *fake.EthNode
	dest   interface { // of the peer's messages
		Receive([]byte) error
		State() (int64, int64)
		Got() [][]byte
	}
	txs   int // accepted transactions
	last  *ethtypes.Transaction
	hash  int
	hashs map[string]bool
}

type world struct {
	mtx    sync.Mutex
	a, b   *side
	killAt []int // accepted transactions after which the program is killed
	before bool  // kill before the transaction is taken
	total  int
	kill   func()
	bad    string
}

func (w *world) complain(f string, a ...interface{}) {
	if w.bad == "" {
		w.bad = fmt.Sprintf(f, a...)
	}
}

func (w *world) failure() string {
	w.mtx.Lock()
	defer w.mtx.Unlock()
	return w.bad
}

// take handles a transaction on s that relays a message of its peer.
func (w *world) take(s *side, prev string, msg []byte) bool {
	if prev != s.peer.addr {
		w.complain("a relay message names %q as its source, expected %q", prev, s.peer.addr)
	}
	due := len(w.killAt) > 0 && w.total >= w.killAt[0]
	mid := false
	if d, ok := s.dest.(*fake.BTPDest); ok {
		// a link for BTP blocks cannot resume within a block, which is a recorded finding
		mid = d.MidBlock() || !d.OpensBlock(msg)
	}
	if due && w.before && !mid {
		w.killAt = w.killAt[1:]
		w.kill()
		return false
	}
	if err := s.dest.Receive(msg); err != nil {
		w.complain("%s refuses a relay message: %v", s.addr, err)
		return false
	}
	s.txs++
	w.total++
	if d, ok := s.dest.(*fake.BTPDest); ok {
		mid = d.MidBlock()
	} else {
		mid = false
	}
	if due && !w.before && !mid {
		w.killAt = w.killAt[1:]
		w.kill()
		return false
	}
	return true
}

func (w *world) serveIcon(s *side) {
	orig := s.icon.Handle
	s.icon.Handle = func(c *fake.Call) interface{} {
		switch c.Method {
		case "icx_sendTransaction":
			w.mtx.Lock()
			defer w.mtx.Unlock()
			var p struct {
				From      string `json:"from"`
				To        string `json:"to"`
				NID       string `json:"nid"`
				StepLimit string `json:"stepLimit"`
				Data      struct {
					Method string `json:"method"`
					Params struct {
						Prev string `json:"_prev"`
						Msg  string `json:"_msg"`
					} `json:"params"`
				} `json:"data"`
			}
			if err := json.Unmarshal(c.Params, &p); err != nil {
				w.complain("transaction: %v", err)
			}
			if p.From != s.acct.addr || p.To != s.bmc {
				w.complain("a transaction on %s from %s to %s, expected one from %s", s.addr, p.From, p.To, s.acct.addr)
			}
			if p.Data.Method != "handleRelayMessage" {
				w.complain("method %s", p.Data.Method)
			}
			msg, err := base64.URLEncoding.DecodeString(p.Data.Params.Msg)
			if err != nil {
				w.complain("message: %v", err)
			}
			if !w.take(s, p.Data.Params.Prev, msg) {
				return &fake.RPCError{Code: -32602, Message: "E2005:no"}
			}
			s.hash++
			return fmt.Sprintf("0x%064x", s.hash)
		case "icx_getTransactionResult":
			return map[string]interface{}{"status": "0x1"}
		case "icx_call":
			if strings.Contains(string(c.Params), `"getStatus"`) {
				h, rx := s.dest.State()
				return map[string]interface{}{"tx_seq": "0x0", "rx_seq": fmt.Sprintf("0x%x", rx),
					"verifier": map[string]interface{}{"height": fmt.Sprintf("0x%x", h), "extra": "0x00"}}
			}
		}
		return orig(c)
	}
}

type verifierStats struct {
	Height *big.Int
	Extra  []byte
}

type linkStats struct {
	RxSeq, TxSeq  *big.Int
	Verifier      verifierStats
	CurrentHeight *big.Int
}

func (w *world) serveEth(s *side) {
	n := s.eth
	n.Send = func(tx *ethtypes.Transaction) *fake.RPCError {
		w.mtx.Lock()
		defer w.mtx.Unlock()
		from, err := ethtypes.Sender(ethtypes.LatestSignerForChainID(big.NewInt(n.ChainID)), tx)
		if err != nil || from.Hex() != s.acct.addr || tx.To() == nil || tx.To().Hex() != s.bmc {
			w.complain("a transaction on %s from %s", s.addr, from.Hex())
		}
		m := fake.BMC.Methods["handleRelayMessage"]
		if len(tx.Data()) < 4 || !bytes.Equal(tx.Data()[:4], m.ID) {
			w.complain("another method")
			return &fake.RPCError{Code: -32000, Message: "no"}
		}
		vs, err := m.Inputs.Unpack(tx.Data()[4:])
		if err != nil {
			w.complain("%v", err)
			return &fake.RPCError{Code: -32000, Message: "no"}
		}
		if !w.take(s, vs[0].(string), vs[1].([]byte)) {
			return &fake.RPCError{Code: -32000, Message: "no"}
		}
		s.last = tx
		return nil
	}
	n.Tx = func(h common.Hash) interface{} {
		w.mtx.Lock()
		defer w.mtx.Unlock()
		if s.last == nil {
			return nil
		}
		b, _ := s.last.MarshalJSON()
		out := map[string]interface{}{}
		_ = json.Unmarshal(b, &out)
		out["from"] = s.acct.addr
		out["blockNumber"] = "0x1"
		out["hash"] = h
		return out
	}
	n.Receipt = func(h common.Hash) interface{} {
		b, _ := json.Marshal(&ethtypes.Receipt{Status: 1, TxHash: h, BlockNumber: big.NewInt(1), Logs: []*ethtypes.Log{}})
		out := map[string]interface{}{}
		_ = json.Unmarshal(b, &out)
		return out
	}
	n.Call = func(to common.Address, data []byte) (hexutil.Bytes, *fake.RPCError) {
		if want, _ := fake.BMC.Pack("getStatus", s.peer.addr); to.Hex() != s.bmc || !bytes.Equal(data, want) {
			w.mtx.Lock()
			w.complain("an unknown call")
			w.mtx.Unlock()
		}
		h, rx := s.dest.State()
		b, _ := fake.BMC.Methods["getStatus"].Outputs.Pack(linkStats{big.NewInt(rx), new(big.Int),
			verifierStats{big.NewInt(h), []byte{1}}, big.NewInt(1)})
		return b, nil
	}
}

var ethTopic = common.BytesToHash(crypto.Keccak256([]byte("Message(string,uint256,bytes)")))

func genSide(t *rapid.T, name string, idx int) *side {
	ic, ec := wallets()
	s := &side{kind: rapid.SampledFrom([]string{"btp", "bridge", "eth"}).Draw(t, name+"kind")}
	net := rapid.IntRange(1, 200).Draw(t, name+"net")*2 + idx
	if s.kind == "eth" {
		s.acct = ec[rapid.IntRange(0, 2).Draw(t, name+"acct")]
		s.bmc = common.BigToAddress(big.NewInt(int64(1000 + idx))).Hex()
		s.addr = fmt.Sprintf("btp://0x%x.%s/%s", net, rapid.SampledFrom([]string{"eth", "hardhat"}).Draw(t, name+"chain"), s.bmc)
	} else {
		s.acct = ic[rapid.IntRange(0, 2).Draw(t, name+"acct")]
		s.bmc = fmt.Sprintf("cx%040x", 1000+idx)
		s.addr = fmt.Sprintf("btp://0x%x.icon/%s", net, s.bmc)
	}
	s.start = rapid.Int64Range(1, 300).Draw(t, name+"start")
	at, sn := s.start+1, int64(0)
	s.blocks = []*block{{h: at}}
	uniq := 0
	for k := rapid.IntRange(1, 4).Draw(t, name+"blocks"); k > 0; k-- {
		if s.kind == "eth" {
			at++
		} else {
			at += rapid.SampledFrom([]int64{1, 3}).Draw(t, name+"gap")
		}
		b := &block{h: at, sn: sn}
		for m := rapid.IntRange(0, 5).Draw(t, name+"msgs"); m > 0; m-- {
			uniq++
			b.msgs = append(b.msgs, []byte(fmt.Sprintf("%s message %d %s", name, uniq, strings.Repeat("x", rapid.SampledFrom([]int{0, 50, 300}).Draw(t, name+"len")))))
		}
		sn += int64(len(b.msgs))
		b.last = sn
		s.blocks = append(s.blocks, b)
	}
	return s
}

func (s *side) describe() string {
	o := s.kind
	for _, b := range s.blocks[1:] {
		o += fmt.Sprintf(" %d", len(b.msgs))
	}
	return o
}

func (s *side) begin(w *world) {
	if s.kind == "eth" {
		s.eth = fake.NewEthNode(97, s.start+1)
		w.serveEth(s)
	} else {
		s.icon = fake.NewIconSource(5, s.start, 0)
		s.icon.Src, s.icon.Dst, s.icon.SrcAccount = s.addr, s.peer.addr, s.bmc
		w.serveIcon(s)
	}
	p := s.peer
	switch p.kind {
	case "btp":
		s.dest = fake.NewBTPDest(5, p.start+1, 0, 0)
	case "bridge":
		s.dest = &fake.BridgeDest{Next: s.addr, Height: p.start + 1}
	case "eth":
		d := &fake.EthDest{}
		d.Next, d.Height = s.addr, p.start+1
		s.dest = d
	}
}

func (s *side) publish(from, to int) {
	for _, b := range s.blocks[from:to] {
		if s.icon != nil {
			s.icon.Publish(b.h, b.sn, 1, b.msgs, []byte{1, 2})
			continue
		}
		var es []fake.EthEvent
		for i, m := range b.msgs {
			es = append(es, fake.EthEvent{Tx: uint(i / 2), Addr: common.HexToAddress(s.bmc), Topic: ethTopic,
				Data: fake.MessageLog(s.peer.addr, b.sn+int64(i)+1, m)})
		}
		s.eth.Mine(es)
	}
}

func (s *side) url() string {
	if s.icon != nil {
		return s.icon.URL + "/api/v3"
	}
	return "ws" + strings.TrimPrefix(s.eth.URL, "http")
}

func (s *side) stop() {
	if s.icon != nil {
		s.icon.Close()
	} else {
		s.eth.Close()
	}
}

// done says whether the peer of s has everything published so far.
func (s *side) done(published int) bool {
	b := s.blocks[published-1]
	h, rx := s.peer.dest.State()
	return rx >= b.last && (s.kind != "btp" || h >= b.h)
}

// program is a running relay.
type program struct {
	cmd  *exec.Cmd
	out  *bytes.Buffer
	exit chan struct{}
}

func run(dir string, args ...string) (*program, error) {
	p := &program{cmd: exec.Command(relayBin, args...), out: &bytes.Buffer{}, exit: make(chan struct{})}
	p.cmd.Dir = dir
	p.cmd.Env = []string{"HOME=" + dir, "PATH=/usr/bin:/bin", "GORACE=halt_on_error=1"}
	p.cmd.Stdout, p.cmd.Stderr = p.out, p.out
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := p.cmd.Start(); err != nil {
		return nil, err
	}
	go func() {
		_ = p.cmd.Wait()
		// of a program built with the race detector (D01)
		if o := p.out.String(); strings.Contains(o, "WARNING: DATA RACE") || strings.Contains(o, "fatal error: concurrent map") {
			fmt.Fprintln(os.Stderr, o)
			os.Exit(66)
		}
		close(p.exit)
	}()
	return p, nil
}

func (p *program) ended() bool {
	select {
	case <-p.exit:
		return true
	default:
		return false
	}
}

func (p *program) kill() {
	_ = p.cmd.Process.Kill()
	<-p.exit
}

// configure hands the configuration to the program in one of its ways and
// returns the arguments of start.
func configure(t *rapid.T, dir string, w *world, direction string, nosave bool) []string {
	way := rapid.SampledFrom([]string{"file", "flags", "saved"}).Draw(t, "way")
	if nosave && way == "saved" {
		way = "flags"
	}
	level := []string{"--console_level", "panic", "--log_level", rapid.SampledFrom([]string{"trace", "info", "panic"}).Draw(t, "level")}
	side := func(s *side) map[string]interface{} {
		m := map[string]interface{}{"address": s.addr, "endpoint": s.url(), "bridge_mode": s.kind == "bridge",
			"key_store": json.RawMessage(s.acct.ks)}
		if rapid.Bool().Draw(t, "secret") {
			f := filepath.Join(dir, "secret-"+s.kind+fmt.Sprint(s == w.a))
			if err := os.WriteFile(f, []byte(s.acct.pw), 0600); err != nil {
				t.Fatalf("%v", err)
			}
			m["key_secret"] = f
		} else {
			m["key_password"] = s.acct.pw
		}
		return m
	}
	sm, dm := side(w.a), side(w.b)
	flags := func(pre string, m map[string]interface{}) []string {
		ks := filepath.Join(dir, pre+"ks.json")
		if err := os.WriteFile(ks, m["key_store"].(json.RawMessage), 0600); err != nil {
			t.Fatalf("%v", err)
		}
		out := []string{"--" + pre + ".address", m["address"].(string), "--" + pre + ".endpoint", m["endpoint"].(string), "--" + pre + ".key_store", ks}
		if m["bridge_mode"].(bool) {
			out = append(out, "--"+pre+".bridge_mode")
		}
		if v, ok := m["key_secret"]; ok {
			out = append(out, "--"+pre+".key_secret", v.(string))
		} else {
			out = append(out, "--"+pre+".key_password", m["key_password"].(string))
		}
		return out
	}
	switch way {
	case "file":
		cfg := map[string]interface{}{"src": sm, "dst": dm, "direction": direction, "log_level": "debug", "console_level": "panic", "base_dir": "."}
		b, _ := json.Marshal(cfg)
		f := filepath.Join(dir, "config.json")
		if err := os.WriteFile(f, b, 0600); err != nil {
			t.Fatalf("%v", err)
		}
		return append([]string{"start", "--config", f}, level...)
	case "flags":
		args := append([]string{"start", "--direction", direction}, level...)
		args = append(args, flags("src", sm)...)
		return append(args, flags("dst", dm)...)
	default:
		f := filepath.Join(dir, "saved.json")
		args := append([]string{"save", f, "--direction", direction}, level...)
		args = append(args, flags("src", sm)...)
		args = append(args, flags("dst", dm)...)
		p, err := run(dir, args...)
		if err != nil {
			t.Fatalf("%v", err)
		}
		select {
		case <-p.exit:
		case <-time.After(30 * time.Second):
			p.kill()
			t.Fatalf("save does not end")
		}
		if !p.cmd.ProcessState.Success() {
			t.Fatalf("save: %s", p.out)
		}
		b, err := os.ReadFile(f)
		if err != nil {
			t.Fatalf("nothing was saved: %v", err)
		}
		if bytes.Contains(b, []byte(w.a.acct.pw)) || bytes.Contains(b, []byte(w.b.acct.pw)) {
			t.Fatalf("a password was saved")
		}
		out := append([]string{"start", "-c", f}, level...)
		// passwords are not saved and have to be given again
		for _, x := range []struct {
			pre string
			m   map[string]interface{}
		}{{"src", sm}, {"dst", dm}} {
			if v, ok := x.m["key_password"]; ok {
				out = append(out, "--"+x.pre+".key_password", v.(string))
			}
		}
		return out
	}
}

// TestR06_Relay runs the program between two generated networks, kills it at
// generated points and starts it again.
func TestR06_Relay(t *testing.T) {
	pbt.Check(t, 4, "messages went in both directions or the program was killed", func(t *rapid.T, c *pbt.Case) {
		w := &world{a: genSide(t, "a", 0), b: genSide(t, "b", 1)}
		w.a.peer, w.b.peer = w.b, w.a
		direction := rapid.SampledFrom([]string{"both", "both", "front", "reverse"}).Draw(t, "direction")
		for k := rapid.IntRange(0, 2).Draw(t, "kills"); k > 0; k-- {
			w.killAt = append(w.killAt, rapid.IntRange(0, 6).Draw(t, "killAt"))
		}
		if len(w.killAt) == 2 && w.killAt[0] > w.killAt[1] {
			w.killAt[0], w.killAt[1] = w.killAt[1], w.killAt[0]
		}
		w.before = rapid.Bool().Draw(t, "before")
		c.Key("%s | %s | %s kills=%v before=%v", w.a.describe(), w.b.describe(), direction, w.killAt, w.before)
		c.Label(w.a.kind + "-" + w.b.kind)
		c.NonTrivial(direction == "both" || len(w.killAt) > 0)
		scratch, err := os.MkdirTemp("", "e2e")
		if err != nil {
			t.Fatalf("%v", err)
		}
		defer os.RemoveAll(scratch)
		dir := filepath.Join(scratch, "work")
		if err := os.Mkdir(dir, 0700); err != nil {
			t.Fatalf("%v", err)
		}
		w.a.begin(w)
		defer w.a.stop()
		w.b.begin(w)
		defer w.b.stop()
		pa := rapid.IntRange(1, len(w.a.blocks)).Draw(t, "pa")
		pb := rapid.IntRange(1, len(w.b.blocks)).Draw(t, "pb")
		w.a.publish(0, pa)
		w.b.publish(0, pb)
		args := configure(t, dir, w, direction, false)
		active := map[*side]bool{w.a: direction != "reverse", w.b: direction != "front"}
		for lives := 0; ; lives++ {
			if lives > 4 {
				t.Fatalf("too many lives")
			}
			subs := map[*side]int{}
			for _, s := range []*side{w.a, w.b} {
				if s.eth != nil {
					subs[s] = s.eth.Subscribed()
				}
			}
			p, err := run(dir, args...)
			if err != nil {
				t.Fatalf("%v", err)
			}
			killed := false
			w.mtx.Lock()
			w.kill = func() { killed = true; go p.kill() }
			w.mtx.Unlock()
			wasKilled := func() bool { w.mtx.Lock(); defer w.mtx.Unlock(); return killed }
			wait := func(what string, cond func() bool) bool {
				end := time.Now().Add(40 * time.Second)
				for {
					if wasKilled() {
						return false
					}
					if f := w.failure(); f != "" {
						p.kill()
						t.Fatalf("%s", f)
					}
					if cond() {
						return true
					}
					if p.ended() {
						t.Fatalf("the program ended while waiting for %s: %s", what, tail(p.out.String()))
					}
					if time.Now().After(end) {
						p.kill()
						t.Fatalf("no %s", what)
					}
					time.Sleep(3 * time.Millisecond)
				}
			}
			alive := true
			for _, s := range []*side{w.a, w.b} {
				if s.eth != nil && active[s] {
					s := s
					alive = alive && wait("subscription to new heads", func() bool { return s.eth.Subscribed() > subs[s] })
					s.eth.Mine(nil)
				}
			}
			for alive {
				alive = wait("relay of all messages", func() bool {
					return (!active[w.a] || w.a.done(pa)) && (!active[w.b] || w.b.done(pb))
				})
				if !alive || pa == len(w.a.blocks) && pb == len(w.b.blocks) {
					break
				}
				if pa < len(w.a.blocks) {
					w.a.publish(pa, pa+1)
					pa++
				}
				if pb < len(w.b.blocks) {
					w.b.publish(pb, pb+1)
					pb++
				}
			}
			p.kill()
			if alive {
				break
			}
			c.Label("killed")
		}
		for _, s := range []*side{w.a, w.b} {
			var want [][]byte
			for _, b := range s.blocks {
				want = append(want, b.msgs...)
			}
			got := s.peer.dest.Got()
			if !active[s] {
				want = nil
			}
			if len(got) != len(want) {
				t.Fatalf("%d messages of %s were sent, %d arrived", len(want), s.addr, len(got))
			}
			for i := range got {
				if !bytes.Equal(got[i], want[i]) {
					t.Fatalf("message %d of %s arrived as another one", i, s.addr)
				}
			}
		}
		if f := w.failure(); f != "" {
			t.Fatalf("%s", f)
		}
	})
}

func tail(s string) string {
	if len(s) > 600 {
		return s[len(s)-600:]
	}
	return s
}
