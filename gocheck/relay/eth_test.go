package relay

import (
	"bytes"
	"fmt"
	"strings"
	"sync/atomic"
	"testing"
	"time"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
	"pgregory.net/rapid"

	"github.com/icon-project/btp/chain"
	"github.com/icon-project/btp/chain/ethbr"
	ethclient "github.com/icon-project/btp/chain/ethbr/client"
	"github.com/icon-project/btp/common/link"
	"github.com/icon-project/btp/common/types"

	"verif/gocheck/fake"
	"verif/gocheck/pbt"
)

func init() {
	ethclient.BlockRetryInterval = 2 * time.Millisecond
	ethclient.BlockRetryLimit = 1 << 30
}

var (
	ethBMC    = common.HexToAddress("0x00000000000000000000000000000000000000b7")
	ethOther  = common.HexToAddress("0x00000000000000000000000000000000000000b8")
	ethSrc    = types.BtpAddress("btp://0x61.bsc/" + ethBMC.Hex())
	msgTopic  = common.BytesToHash(crypto.Keccak256([]byte("Message(string,uint256,bytes)")))
	elseTopic = common.BytesToHash(crypto.Keccak256([]byte("Event(string,uint256,bytes)")))
)

type ethMsg struct {
	tx  uint
	seq int64
	m   []byte
}

type ethBlk struct {
	h      int64
	events []fake.EthEvent
	msgs   []ethMsg
	last   int64 // sequence after the block
}

type ethHistory struct {
	first  int64
	base   int64
	blocks []*ethBlk
}

func (h *ethHistory) String() string {
	s := fmt.Sprintf("first=%d base=%d", h.first, h.base)
	for _, b := range h.blocks {
		s += fmt.Sprintf(" [%d:", len(b.events))
		for _, m := range b.msgs {
			s += fmt.Sprintf("%d.%d,", m.tx, len(m.m))
		}
		s += "]"
	}
	return s
}

func genEthHistory(t *rapid.T, maxBlocks int) *ethHistory {
	h := &ethHistory{
		first: rapid.OneOf(rapid.Int64Range(1, 500), rapid.SampledFrom([]int64{1<<24 + 3, 1<<31 - 2, 1 << 40})).Draw(t, "first"),
		base:  rapid.SampledFrom([]int64{0, 0, 1, 126, 1000, 1<<31 - 3, 1 << 40}).Draw(t, "base"),
	}
	n := rapid.IntRange(1, maxBlocks).Draw(t, "blocks")
	seq := h.base
	other := int64(rapid.SampledFrom([]int64{0, 0, 5, 2000}).Draw(t, "other"))
	uniq := 0
	for i := 0; i < n; i++ {
		b := &ethBlk{h: h.first + int64(i)}
		tx := uint(0)
		for k := rapid.SampledFrom([]int{0, 0, 1, 2, 3, 5, 9}).Draw(t, "events"); k > 0; k-- {
			tx += rapid.SampledFrom([]uint{0, 0, 1, 3, 127}).Draw(t, "tx")
			e := fake.EthEvent{Tx: tx, Addr: ethBMC, Topic: msgTopic}
			l := rapid.SampledFrom([]int{0, 1, 33, 55, 56, 120}).Draw(t, "len")
			m := bytes.Repeat([]byte{byte(uniq)}, l)
			if l > 1 {
				m[0] = byte(uniq >> 8)
			}
			uniq++
			switch rapid.SampledFrom([]string{"ours", "ours", "ours", "ours", "next", "addr", "topic"}).Draw(t, "kind") {
			case "ours":
				seq++
				e.Data = fake.MessageLog(dstAddr.String(), seq, m)
				b.msgs = append(b.msgs, ethMsg{tx, seq, m})
			case "next":
				other++
				nx := rapid.SampledFrom([]string{"btp://0x3.icon/cx0000000000000000000000000000000000000009",
					"btp://0x2.icon/cx0000000000000000000000000000000000000008",
					dstAddr.String() + "0", dstAddr.String()[:len(dstAddr)-1], ""}).Draw(t, "nx")
				e.Data = fake.MessageLog(nx, other, m)
			case "addr":
				e.Addr = ethOther
				e.Data = fake.MessageLog(dstAddr.String(), seq+1, m)
			case "topic":
				e.Topic = elseTopic
				e.Data = fake.MessageLog(dstAddr.String(), seq+1, m)
			}
			b.events = append(b.events, e)
		}
		b.last = seq
		h.blocks = append(h.blocks, b)
	}
	return h
}

func (h *ethHistory) mine(n *fake.EthNode, from, to int) {
	for _, b := range h.blocks[from:to] {
		n.Mine(b.events)
	}
}

// ethURL is the polled or the subscribed endpoint of a node.
func ethURL(n *fake.EthNode, ws bool) string {
	if ws {
		return "ws" + strings.TrimPrefix(n.URL, "http")
	}
	return n.URL
}

// stopEth makes the monitors of a node end, then closes it.
func stopEth(n *fake.EthNode) {
	var refused atomic.Int64
	n.SetFail(func(c *fake.Call) *fake.RPCError {
		if c.Method == "eth_getLogs" || c.Method == "eth_blockNumber" {
			refused.Add(1)
			return &fake.RPCError{Code: -32000, Message: "closing"}
		}
		return nil
	})
	n.Mine(nil)
	for i := 0; i < 100 && refused.Load() == 0; i++ {
		time.Sleep(time.Millisecond)
	}
	n.Close()
}

func ethStartOf(t *rapid.T, h *ethHistory) (from, left int) {
	from = rapid.IntRange(0, len(h.blocks)-1).Draw(t, "from")
	if k := len(h.blocks[from].msgs); k > 0 {
		left = rapid.IntRange(0, k).Draw(t, "left")
	}
	return
}

func (h *ethHistory) wanted(from, left int) (ms []ethMsg, hs []int64) {
	for i, b := range h.blocks {
		x := b.msgs
		if i < from {
			continue
		}
		if i == from {
			x = x[len(x)-left:]
		}
		for _, m := range x {
			ms = append(ms, m)
			hs = append(hs, b.h)
		}
	}
	return
}

func checkEthArrived(t *rapid.T, dest *fake.EthDest, ms []ethMsg, hs []int64) {
	got := dest.Got()
	if len(got) != len(ms) {
		t.Fatalf("%d messages were sent, %d arrived", len(ms), len(got))
	}
	for i := range got {
		if !bytes.Equal(got[i], ms[i].m) || dest.Heights[i] != hs[i] || dest.Indexes[i] != int64(ms[i].tx) {
			t.Fatalf("message %d arrived as another one, or from block %d transaction %d instead of %d %d", ms[i].seq,
				dest.Heights[i], dest.Indexes[i], hs[i], ms[i].tx)
		}
	}
}

// TestR04_EthReceiver drives the Ethereum bridge receiver the way a link does.
func TestR04_EthReceiver(t *testing.T) {
	pbt.Check(t, 150, "a block was relayed in more than one proof, several blocks were relayed, or the start was within a block",
		func(t *rapid.T, c *pbt.Case) {
			h := genEthHistory(t, 6)
			from, left := ethStartOf(t, h)
			ws := rapid.IntRange(0, 2).Draw(t, "ws") == 0
			c.Key("%s from=%d left=%d ws=%v", h, from, left, ws)
			b0 := h.blocks[from]
			c.NonTrivial(left > 0 && left < len(b0.msgs))
			bls := &types.BMCLinkStatus{TxSeq: 4, RxSeq: b0.last - int64(left)}
			bls.Verifier.Height = b0.h
			n := fake.NewEthNode(97, h.first)
			defer stopEth(n)
			published := rapid.IntRange(from+1, len(h.blocks)).Draw(t, "published")
			h.mine(n, 0, published)
			top := n.Top()
			flaky := rapid.IntRange(0, 3).Draw(t, "flaky")
			fails := map[string]int{}
			var asked atomic.Bool
			n.SetFail(func(c *fake.Call) *fake.RPCError {
				if c.Method == "eth_blockNumber" {
					asked.Store(true)
				}
				if c.Method == "eth_getBlockByNumber" {
					num := string(c.Params)
					// only the polled head is retried
					if !ws && fake.BlockArg(c) > top {
						if fails[num] < flaky {
							fails[num]++
							return &fake.RPCError{Code: -32000, Message: "busy"}
						}
					}
				}
				return nil
			})
			dest := &fake.EthDest{}
			dest.Next, dest.Height, dest.Rx = dstAddr.String(), b0.h, bls.RxSeq

			var r link.Receiver = ethbr.NewEthBridge(ethSrc, dstAddr, ethURL(n, ws), fake.Quiet())
			if _, err := r.GetStatus(); err == nil {
				t.Fatalf("a receiver without receive statuses has a status")
			}
			startBls, startRx := *bls, bls.RxSeq
			ch, err := r.Start(&startBls)
			if err != nil {
				t.Fatalf("start: %v", err)
			}
			defer drain(ch)
			if ws {
				// heads are announced from the subscription on; another block makes the
				// receiver catch up
				for i := 0; n.Subscribed() == 0; i++ {
					if i > 5000 {
						t.Fatalf("the receiver does not subscribe to new heads")
					}
					time.Sleep(time.Millisecond)
				}
			}
			for i := 0; !ws && !asked.Load(); i++ {
				if i > 5000 {
					t.Fatalf("the receiver does not ask for the head")
				}
				time.Sleep(time.Millisecond)
			}
			caughtUp := !ws
			// blocks that yield a status, in order
			var pend []int
			for i := from; i < len(h.blocks); i++ {
				k := len(h.blocks[i].msgs)
				if i == from {
					k = left
				}
				if k > 0 {
					pend = append(pend, i)
				}
			}
			next, done := 0, 0 // indexes in pend: statuses read, blocks relayed
			total, steps := 0, 0
			for done < len(pend) {
				if steps++; steps > 500 {
					t.Fatalf("no progress at height %d", bls.Verifier.Height)
				}
				switch rapid.SampledFrom([]string{"read", "read", "publish", "build", "build"}).Draw(t, "act") {
				case "publish":
					if published < len(h.blocks) {
						h.mine(n, published, published+1)
						published++
						caughtUp = true
					} else if !caughtUp {
						n.Mine(nil)
						caughtUp = true
					}
				case "read":
					if next >= len(pend) || pend[next] >= published || !caughtUp {
						continue
					}
					b := h.blocks[pend[next]]
					next++
					rs := recvStatus(t, ch, fmt.Sprintf("block %d", b.h))
					if rs.Height() != b.h || rs.Seq() != b.last {
						t.Fatalf("receive status height=%d seq=%d, the block has height=%d and its last message seq=%d",
							rs.Height(), rs.Seq(), b.h, b.last)
					}
					st, err := r.GetStatus()
					if err != nil && bls.Verifier.Height < b.h || err == nil && st.Height() < b.h {
						t.Fatalf("status of the receiver after block %d: %v %v", b.h, st, err)
					}
				case "build":
					bus, err := r.BuildBlockUpdate(bls, rapid.SampledFrom([]int64{0, 100, 1 << 20}).Draw(t, "limit"))
					if err != nil {
						t.Fatalf("block updates at %d: %v", bls.Verifier.Height, err)
					}
					if len(bus) == 0 && next > done {
						t.Fatalf("no block update for the pending block %d", h.blocks[pend[done]].h)
					}
					take := len(bus)
					if take > 1 {
						take = rapid.IntRange(1, len(bus)).Draw(t, "take")
					}
					at := done
					for i, bu := range bus {
						if at+i >= len(pend) || bu.TargetHeight() != h.blocks[pend[at+i]].h {
							t.Fatalf("block update %d is for height %d, expected the pending ones", i, bu.TargetHeight())
						}
						if at+i >= next || i >= take {
							continue
						}
						b := h.blocks[pend[at+i]]
						rx, tx := bls.RxSeq, bls.TxSeq
						if err := bu.UpdateBMCLinkStatus(bls); err != nil {
							t.Fatalf("%v", err)
						}
						if bls.Verifier.Height != b.h || bls.RxSeq != rx || bls.TxSeq != tx {
							t.Fatalf("block update of %d turns rx=%d tx=%d into height=%d rx=%d tx=%d",
								b.h, rx, tx, bls.Verifier.Height, bls.RxSeq, bls.TxSeq)
						}
						if m, err := r.BuildRelayMessage([]link.RelayMessageItem{bu}); err != nil || len(m) != 0 {
							t.Fatalf("relay message of a block update without messages: %d bytes, %v", len(m), err)
						}
						proofs := 0
						for bls.RxSeq < b.last {
							if pbt.Pct(t, "again", 25) {
								// what the destination lost is asked for again
								lo := b.last - int64(len(b.msgs))
								at2 := lo
								if pend[at+i] == from {
									at2 = startRx
								}
								bls2 := *bls
								bls2.RxSeq = rapid.Int64Range(at2, b.last-1).Draw(t, "at")
								mp, err := r.BuildMessageProof(&bls2, rapid.SampledFrom([]int64{0, 200, 1 << 20}).Draw(t, "alimit"))
								if err != nil || mp == nil {
									t.Fatalf("message proof at height %d after %d of the messages up to %d: %v %v", b.h, bls2.RxSeq, b.last, mp, err)
								}
								m, err := r.BuildRelayMessage([]link.RelayMessageItem{bu, mp})
								if err != nil {
									t.Fatalf("relay message: %v", err)
								}
								d2 := &fake.EthDest{}
								d2.Next, d2.Height, d2.Rx = dstAddr.String(), b.h, bls2.RxSeq
								if err := d2.Receive(m); err != nil {
									t.Fatalf("a destination at message %d of block %d refuses the relay message: %v", bls2.RxSeq, b.h, err)
								}
								k := bls2.RxSeq - lo
								n := int64(len(d2.Got()))
								hs := make([]int64, n)
								for j := range hs {
									hs[j] = b.h
								}
								checkEthArrived(t, d2, b.msgs[k:k+n], hs)
							}
							pl := rapid.SampledFrom([]int64{0, 100, 200, 300, 1 << 20}).Draw(t, "plimit")
							if got := r.GetHeightForSeq(bls.RxSeq + 1); got != b.h {
								t.Fatalf("height of message %d is %d, expected %d", bls.RxSeq+1, got, b.h)
							}
							mp, err := r.BuildMessageProof(bls, pl)
							if err != nil || mp == nil {
								t.Fatalf("message proof at height %d after %d of the messages up to %d: %v %v", b.h, bls.RxSeq, b.last, mp, err)
							}
							k := mp.LastSeqNum() - bls.RxSeq
							if k < 1 || mp.LastSeqNum() > b.last {
								t.Fatalf("message proof after %d ends at %d, block ends at %d", bls.RxSeq, mp.LastSeqNum(), b.last)
							}
							if k > 1 && mp.Len() > pl+40*k {
								t.Fatalf("message proof of %d messages has %d bytes with limit %d", k, mp.Len(), pl)
							}
							wantRx := mp.LastSeqNum()
							if pl == 1<<20 && wantRx != b.last {
								t.Fatalf("message proof with room for all messages up to %d ends at %d", b.last, wantRx)
							}
							if err := mp.UpdateBMCLinkStatus(bls); err != nil {
								t.Fatalf("%v", err)
							}
							if bls.RxSeq != wantRx || bls.Verifier.Height != b.h || bls.TxSeq != tx {
								t.Fatalf("message proof up to %d turns the status into height=%d rx=%d", wantRx, bls.Verifier.Height, bls.RxSeq)
							}
							m, err := r.BuildRelayMessage([]link.RelayMessageItem{bu, mp})
							if err != nil {
								t.Fatalf("relay message: %v", err)
							}
							if int64(len(m)) != mp.Len() || mp.Type() != link.TypeMessageProof || bu.Type() != link.TypeBlockUpdate {
								t.Fatalf("relay message of %d bytes from a proof of %d, types %d %d", len(m), mp.Len(), bu.Type(), mp.Type())
							}
							if err := dest.Receive(m); err != nil {
								t.Fatalf("the destination refuses the relay message: %v", err)
							}
							if _, rx := dest.State(); rx != bls.RxSeq {
								t.Fatalf("the proof announced messages up to %d, the destination received %d", bls.RxSeq, rx)
							}
							proofs++
							total++
						}
						done++
						// a later block that was published may have been collected already,
						// whether or not its status was read
						more := done < len(pend) && pend[done] < published
						if mp, err := r.BuildMessageProof(bls, 1<<20); err != nil || mp != nil && !more {
							t.Fatalf("message proof after the last message of block %d: %v %v", b.h, mp, err)
						}
						c.NonTrivial(proofs > 1 || total > 1)
					}
				}
			}
			if bus, err := r.BuildBlockUpdate(bls, 1<<20); err != nil || len(bus) != 0 {
				t.Fatalf("%d block updates are left after everything was relayed, %v", len(bus), err)
			}
			ms, hs := h.wanted(from, left)
			checkEthArrived(t, dest, ms, hs)
			if bad := n.Complaints(); len(bad) > 0 {
				t.Fatalf("requests the network does not understand: %v", bad)
			}
		})
}

// TestR04_EthLink relays a history through real links, which may crash at any
// delivery and are replaced.
func TestR04_EthLink(t *testing.T) {
	pbt.Check(t, 150, linkRule, func(t *rapid.T, c *pbt.Case) {
		h := genEthHistory(t, 7)
		from, left := ethStartOf(t, h)
		ws := rapid.IntRange(0, 2).Draw(t, "ws") == 0
		c.Key("%s from=%d left=%d ws=%v", h, from, left, ws)
		b0 := h.blocks[from]
		n := fake.NewEthNode(97, h.first)
		defer stopEth(n)
		published := rapid.IntRange(from+1, len(h.blocks)).Draw(t, "published")
		h.mine(n, 0, published)
		dest := &fake.EthDest{}
		dest.Next, dest.Height, dest.Rx = dstAddr.String(), b0.h, b0.last-int64(left)
		crashes := rapid.IntRange(0, 2).Draw(t, "crashes")
		relays := 0
		for life := 0; ; life++ {
			margin := rapid.SampledFrom([]int64{0, 0, 10}).Draw(t, "margin")
			limit := int(margin) + rapid.SampledFrom([]int{0, 100, 150, 400, 1 << 20}).Draw(t, "limit")
			snd := newModelSender(dest, limit, margin)
			snd.confirm = rapid.Bool().Draw(t, "confirm")
			if life < crashes {
				snd.crashAt = rapid.IntRange(0, 8).Draw(t, "crash")
			}
			c.Key("limit=%d margin=%d confirm=%v crash=%d", limit, margin, snd.confirm, snd.crashAt)
			snd.onRelay = func(m []byte) error {
				_, es, err := fake.DecodeEthBridge(m)
				if err != nil {
					return err
				}
				k := 0
				for _, e := range es {
					k += len(e)
				}
				if k > 1 && int64(len(m)) > int64(limit)-margin+int64(40*k) {
					return fmt.Errorf("a relay message of %d messages has %d bytes, the limit is %d", k, len(m), int64(limit)-margin)
				}
				return nil
			}
			subs := n.Subscribed()
			cfg := &chain.Config{Src: chain.BaseConfig{Address: ethSrc}, Dst: chain.BaseConfig{Address: dstAddr}}
			l := link.NewLink(cfg, ethbr.NewEthBridge(ethSrc, dstAddr, ethURL(n, ws), fake.Quiet()), fake.Quiet())
			ended := make(chan error, 1)
			go func() { ended <- l.Start(snd) }()
			if ws {
				for i := 0; n.Subscribed() == subs; i++ {
					if i > 5000 {
						t.Fatalf("the receiver does not subscribe to new heads")
					}
					time.Sleep(time.Millisecond)
				}
				n.Mine(nil) // heads of the history keep their numbers: see below
			}
			for {
				if rapid.Bool().Draw(t, "settle") || published == len(h.blocks) || ws {
					b := h.blocks[published-1]
					if !snd.await(20*time.Second, func() bool { _, rx := dest.State(); return rx >= b.last }) {
						hh, rx := dest.State()
						t.Fatalf("the link stopped relaying: height=%d rx=%d of rx=%d published", hh, rx, b.last)
					}
					if snd.down() {
						break
					}
					if err := snd.failure(); err != nil {
						t.Fatalf("%v", err)
					}
				}
				if published == len(h.blocks) {
					break
				}
				k := rapid.IntRange(1, len(h.blocks)-published).Draw(t, "burst")
				for _, b := range h.blocks[published : published+k] {
					b.h = n.Mine(b.events)
				}
				published += k
			}
			select {
			case err := <-ended:
				t.Fatalf("the link ended: %v", err)
			default:
			}
			relays += snd.relays
			if !snd.down() {
				snd.wg.Wait()
				break
			}
			c.Label("crash")
		}
		c.NonTrivial(relays > 1)
		ms, hs := h.wanted(from, left)
		checkEthArrived(t, dest, ms, hs)
		if bad := n.Complaints(); len(bad) > 0 {
			t.Fatalf("requests the network does not understand: %v", bad)
		}
	})
}

// TestR04_EthOddLogs feeds logs of the BMC that do not hold a message.
func TestR04_EthOddLogs(t *testing.T) {
	pbt.Check(t, 60, "the log does not unpack", func(t *rapid.T, c *pbt.Case) {
		data := fake.MessageLog(dstAddr.String(), 1, []byte("abcdef"))
		switch rapid.IntRange(0, 2).Draw(t, "how") {
		case 0:
			data = data[:rapid.IntRange(0, len(data)-1).Draw(t, "cut")]
		case 1:
			data = append([]byte(nil), data...)
			for k := rapid.IntRange(1, 4).Draw(t, "flips"); k > 0; k-- {
				data[rapid.IntRange(0, len(data)-1).Draw(t, "at")] = byte(rapid.IntRange(0, 255).Draw(t, "with"))
			}
		case 2:
			data = rapid.SliceOfN(rapid.Byte(), 0, 200).Draw(t, "data")
		}
		c.Key("%x", data)
		c.NonTrivial(true)
		n := fake.NewEthNode(97, 5)
		n.Mine([]fake.EthEvent{{Addr: ethBMC, Topic: msgTopic, Data: data}})
		defer stopEth(n)
		r := ethbr.NewEthBridge(ethSrc, dstAddr, n.URL, fake.Quiet())
		bls := &types.BMCLinkStatus{}
		bls.Verifier.Height = 5
		ch, err := r.Start(bls)
		if err != nil {
			t.Fatalf("%v", err)
		}
		// no crash; a status only when the log holds a message for us
		select {
		case rs := <-ch:
			if rs.Height() != 5 || rs.Seq() < 1 {
				t.Fatalf("receive status height=%d seq=%d", rs.Height(), rs.Seq())
			}
		case <-time.After(5 * time.Millisecond):
		}
		drain(ch)
	})
}

// TestR04_FailingQueries: a query that fails loses no message.
func TestR04_FailingQueries(t *testing.T) {
	pbt.CheckSlow(t, 60, "a query failed while blocks were left", func(t *rapid.T, c *pbt.Case) {
		h := genEthHistory(t, 8)
		from, left := ethStartOf(t, h)
		ws := rapid.IntRange(0, 2).Draw(t, "ws") == 0
		var failed atomic.Bool
		what, f := failSome(t, []string{"eth_getLogs", "eth_getLogs", "eth_getBlockByNumber"}, rapid.SampledFrom([]int{1, 1, 2, 1000}).Draw(t, "times"), &failed)
		c.Key("%s from=%d left=%d ws=%v %s", h, from, left, ws, what)
		n := fake.NewEthNode(97, h.first)
		defer stopEth(n)
		published := rapid.IntRange(from+1, len(h.blocks)).Draw(t, "published")
		h.mine(n, 0, published)
		var asked atomic.Bool
		n.SetFail(func(c *fake.Call) *fake.RPCError {
			if c.Method == "eth_blockNumber" {
				asked.Store(true)
			}
			return f(c)
		})
		bls := &types.BMCLinkStatus{TxSeq: 4, RxSeq: h.blocks[from].last - int64(left)}
		bls.Verifier.Height = h.blocks[from].h
		r := ethbr.NewEthBridge(ethSrc, dstAddr, ethURL(n, ws), fake.Quiet())
		ch, err := r.Start(bls)
		if err != nil {
			t.Fatalf("start: %v", err)
		}
		for i := 0; ws && n.Subscribed() == 0 || !ws && !asked.Load(); i++ {
			if i > 5000 {
				t.Fatalf("the receiver does not ask for the head")
			}
			time.Sleep(time.Millisecond)
		}
		h.mine(n, published, len(h.blocks))
		n.Mine(nil)
		var want []mark
		for i, b := range h.blocks {
			if i > from && len(b.msgs) > 0 || i == from && left > 0 {
				want = append(want, mark{b.h, b.last})
			}
		}
		inOrder(t, c, ch, want, &failed, false)
		c.NonTrivial(failed.Load())
	})
}
