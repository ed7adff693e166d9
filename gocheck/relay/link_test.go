package relay

import (
	"bytes"
	"fmt"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/icon-project/btp/chain"
	"github.com/icon-project/btp/chain/icon/bridge"
	"github.com/icon-project/btp/chain/icon/btp2"
	"github.com/icon-project/btp/common/link"
	"github.com/icon-project/btp/common/types"

	"verif/gocheck/fake"
	"verif/gocheck/pbt"
)

// dest is a destination network that verifies what is relayed to it.
type dest interface {
	Receive([]byte) error
	State() (int64, int64)
	Got() [][]byte
}

// modelSender hands relay messages to a destination.
type modelSender struct {
	mtx     sync.Mutex
	d       dest
	limit   int
	margin  int64
	ch      chan types.SenderMessage
	ids     map[int]bool
	relays  int
	crashAt int // deliveries after which nothing arrives any more, -1 for never
	crashed bool
	change  chan struct{}
	err     error
	confirm bool
	onRelay func(m []byte) error
	status  *types.BMCLinkStatus
	wg      sync.WaitGroup
}

func newModelSender(d dest, limit int, margin int64) *modelSender {
	return &modelSender{d: d, limit: limit, margin: margin, crashAt: -1,
		ch: make(chan types.SenderMessage), ids: map[int]bool{}, change: make(chan struct{}, 1)}
}

func (s *modelSender) notify() {
	select {
	case s.change <- struct{}{}:
	default:
	}
}

func (s *modelSender) Start() (<-chan types.SenderMessage, error) { return s.ch, nil }
func (s *modelSender) Stop()                                      { close(s.ch) }
func (s *modelSender) GetMarginForLimit() int64                   { return s.margin }
func (s *modelSender) TxSizeLimit() int                           { return s.limit }
func (s *modelSender) GetStatus() (*types.BMCLinkStatus, error) {
	if s.status != nil {
		c := *s.status
		return &c, nil
	}
	h, rx := s.d.State()
	b := &types.BMCLinkStatus{TxSeq: 1, RxSeq: rx}
	b.Verifier.Height = h
	return b, nil
}

func (s *modelSender) Relay(rm types.RelayMessage) (int, error) {
	s.mtx.Lock()
	defer s.mtx.Unlock()
	defer s.notify()
	if s.err != nil || s.crashed {
		return 0, fmt.Errorf("down")
	}
	if s.relays == s.crashAt {
		s.crashed = true
		return 0, fmt.Errorf("down")
	}
	s.relays++
	if s.ids[rm.Id()] {
		s.err = fmt.Errorf("two relay messages with the same id")
		return 0, s.err
	}
	s.ids[rm.Id()] = true
	m := rm.Bytes()
	if rm.Size() != int64(len(m)) {
		s.err = fmt.Errorf("relay message of %d bytes says its size is %d", len(m), rm.Size())
		return 0, s.err
	}
	if s.onRelay != nil {
		if s.err = s.onRelay(m); s.err != nil {
			return 0, s.err
		}
	}
	if err := s.d.Receive(m); err != nil {
		s.err = fmt.Errorf("the destination refuses relay message %d: %v", s.relays, err)
		return 0, s.err
	}
	if s.confirm {
		st, _ := s.GetStatus()
		s.wg.Add(1)
		go func() {
			defer s.wg.Done()
			select {
			case s.ch <- st:
			case <-time.After(10 * time.Second):
			}
		}()
	}
	return rm.Id(), nil
}

func (s *modelSender) failure() error {
	s.mtx.Lock()
	defer s.mtx.Unlock()
	return s.err
}

func (s *modelSender) down() bool {
	s.mtx.Lock()
	defer s.mtx.Unlock()
	return s.crashed
}

// await waits for cond, for a failure, or for the crash of the sender.
func (s *modelSender) await(d time.Duration, cond func() bool) bool {
	end := time.After(d)
	for {
		if s.failure() != nil || s.down() || cond() {
			return true
		}
		select {
		case <-s.change:
		case <-time.After(50 * time.Millisecond):
		case <-end:
			return cond()
		}
	}
}

func linkCfg() *chain.Config {
	return &chain.Config{Src: chain.BaseConfig{Address: srcAddr}, Dst: chain.BaseConfig{Address: dstAddr}}
}

// buSize is the size of the update for a block.
func buSize(b *fake.BTPBlock) int {
	return len(fake.EncList(fake.EncBytes(b.Header), fake.EncBytes(b.Proof)))
}

func itemSizeRule(limit int64) func(m []byte) error {
	return func(m []byte) error {
		ts, ps, err := fake.DecodeItems(m)
		if err != nil {
			return err
		}
		sum := int64(0)
		for _, p := range ps {
			sum += int64(len(p))
		}
		if sum <= limit || len(ts) == 0 {
			return nil
		}
		last := len(ts) - 1
		if ts[last] == 2 {
			if p, err := fake.DecodeBTPProof(ps[last]); err == nil && len(p.Contents) == 1 {
				return nil
			}
		}
		return fmt.Errorf("a relay message holds items of %d bytes, the limit is %d", sum, limit)
	}
}

func bridgeSizeRule(limit int64) func(m []byte) error {
	return func(m []byte) error {
		_, es, err := fake.DecodeBridge(m)
		if err != nil {
			return err
		}
		n := 0
		for _, e := range es {
			n += len(e)
		}
		if n > 1 && int64(len(m)) > limit+60 {
			return fmt.Errorf("a relay message of %d messages has %d bytes, the limit is %d", n, len(m), limit)
		}
		return nil
	}
}

// runLinks relays a generated history from a fake network to a verifying
// destination through real links, which may crash and be replaced.
func runLinks(t *rapid.T, c *pbt.Case, bridgeMode bool) {
	h := genHistory(t, 7, 9, 120)
	c.Key("%s", h)
	s := newSource(h)
	defer s.Close()
	maxBU := 0
	{
		tmp := fake.NewIconSource(h.nid, h.start, h.offset)
		for _, b := range h.blocks {
			if n := buSize(tmp.Publish(b.h, b.sn, b.flag, b.msgs, b.proof)); n > maxBU {
				maxBU = n
			}
		}
		tmp.Close()
	}
	var want [][]byte
	for _, b := range h.blocks {
		want = append(want, b.msgs...)
	}
	base := int64(0)
	if bridgeMode {
		base = h.offset
	}
	lastB := h.blocks[len(h.blocks)-1]
	var d dest
	var bd *fake.BTPDest
	if bridgeMode {
		d = &fake.BridgeDest{Next: dstAddr.String(), Height: h.start + 1, Rx: base}
	} else {
		bd = fake.NewBTPDest(h.nid, h.start+1, 0, 0)
		d = bd
	}
	published := rapid.IntRange(1, len(h.blocks)).Draw(t, "published")
	h.publish(s, 0, published)
	arrived := func(n int) func() bool {
		b := h.blocks[n-1]
		return func() bool {
			hh, rx := d.State()
			return rx >= b.last(base) && (bridgeMode || hh >= b.h)
		}
	}
	crashes := rapid.IntRange(0, 2).Draw(t, "crashes")
	splits := 0
	for life := 0; ; life++ {
		margin := rapid.SampledFrom([]int64{0, 0, 10}).Draw(t, "margin")
		limit := maxBU + int(margin) + rapid.SampledFrom([]int{0, 1, 40, 150, 400, 1 << 20}).Draw(t, "limit")
		snd := newModelSender(d, limit, margin)
		snd.confirm = rapid.Bool().Draw(t, "confirm")
		if life < crashes {
			snd.crashAt = rapid.IntRange(0, 12).Draw(t, "crash")
		}
		if bridgeMode {
			snd.onRelay = bridgeSizeRule(int64(limit) - margin)
		} else {
			snd.onRelay = itemSizeRule(int64(limit) - margin)
		}
		c.Key("limit=%d margin=%d confirm=%v crash=%d", limit, margin, snd.confirm, snd.crashAt)
		if !bridgeMode && snd.crashAt >= 0 {
			// A link for BTP blocks cannot resume within a block, see TestL01_BTP2Resume:
			// crash only between blocks.
			at := snd.crashAt
			snd.crashAt = -1
			size := snd.onRelay
			n := 0
			snd.onRelay = func(m []byte) error {
				n++
				if n > at && !bd.MidBlock() && bd.OpensBlock(m) {
					snd.crashed = true
					return fmt.Errorf("down")
				}
				return size(m)
			}
		}
		var r link.Receiver
		if bridgeMode {
			r = bridge.NewBridge(srcAddr, dstAddr, s.URL, fake.Quiet())
		} else {
			r = btp2.NewBTP2(srcAddr, dstAddr, s.URL, fake.Quiet())
		}
		l := link.NewLink(linkCfg(), r, fake.Quiet())
		ended := make(chan error, 1)
		go func() { ended <- l.Start(snd) }()
		for {
			if rapid.Bool().Draw(t, "settle") || published == len(h.blocks) {
				if !snd.await(20*time.Second, arrived(published)) {
					hh, rx := d.State()
					t.Fatalf("the link stopped relaying: height=%d rx=%d of height=%d rx=%d published", hh, rx,
						h.blocks[published-1].h, h.blocks[published-1].last(base))
				}
				if snd.down() {
					break
				}
				if err := snd.failure(); err != nil {
					t.Fatalf("%v", err)
				}
			}
			if published == len(h.blocks) {
				break
			}
			n := rapid.IntRange(1, len(h.blocks)-published).Draw(t, "burst")
			h.publish(s, published, published+n)
			published += n
		}
		select {
		case err := <-ended:
			t.Fatalf("the link ended: %v", err)
		default:
		}
		splits += snd.relays
		if !snd.down() {
			snd.wg.Wait()
			break
		}
		c.Label("crash")
	}
	c.NonTrivial(splits > 1)
	hh, rx := d.State()
	if rx != lastB.last(base) || !bridgeMode && hh != lastB.h {
		t.Fatalf("the destination ended at height=%d rx=%d, published height=%d rx=%d", hh, rx, lastB.h, lastB.last(base))
	}
	got := d.Got()
	if len(got) != len(want) {
		t.Fatalf("%d messages were published, %d arrived", len(want), len(got))
	}
	for i := range got {
		if !bytes.Equal(got[i], want[i]) {
			t.Fatalf("message %d arrived as another one", i)
		}
	}
}

const linkRule = "at least two relay messages were needed"

func TestL01_BTP2Link(t *testing.T) {
	pbt.Check(t, 200, linkRule, func(t *rapid.T, c *pbt.Case) { runLinks(t, c, false) })
}

func TestL01_BridgeLink(t *testing.T) {
	pbt.Check(t, 200, linkRule, func(t *rapid.T, c *pbt.Case) { runLinks(t, c, true) })
}

// TestL01_BTP2Resume starts a link for BTP blocks at a destination that has
// taken only some messages of its last block. That the remaining messages of
// that block are left out is a recorded finding; whatever the link relays
// must still be in order.
func TestL01_BTP2Resume(t *testing.T) {
	pbt.Check(t, 10, "the destination stands within a block", func(t *rapid.T, c *pbt.Case) {
		h := &history{nid: 1, start: 5}
		k := rapid.IntRange(2, 5).Draw(t, "msgs")
		taken := rapid.IntRange(1, k-1).Draw(t, "taken")
		mk := func(i int) []byte { return []byte{byte(i), 1, 2, 3} }
		b1 := &blk{h: 7, sn: 0}
		for i := 0; i < k; i++ {
			b1.msgs = append(b1.msgs, mk(i))
		}
		b2 := &blk{h: 8, sn: int64(k), msgs: [][]byte{mk(100)}}
		h.blocks = []*blk{{h: 6, flag: 1}, b1, b2}
		c.Key("msgs=%d taken=%d", k, taken)
		c.NonTrivial(true)
		s := newSource(h)
		defer s.Close()
		h.publish(s, 0, 3)
		d := fake.NewBTPDest(1, 6, 0, 0)
		if err := d.Stand(s, 7, taken); err != nil {
			t.Fatalf("%v", err)
		}
		snd := newModelSender(d, 1<<20, 0)
		l := link.NewLink(linkCfg(), btp2.NewBTP2(srcAddr, dstAddr, s.URL, fake.Quiet()), fake.Quiet())
		go func() { _ = l.Start(snd) }()
		snd.await(5*time.Second, func() bool { _, rx := d.State(); return rx == int64(k+1) })
		if err := snd.failure(); err != nil {
			if !d.LeftOut() {
				t.Fatalf("%v", err)
			}
			pbt.Known("btp2-resume-within-block")
			c.Label("known finding")
			return
		}
		if _, rx := d.State(); rx != int64(k+1) {
			t.Fatalf("the link relayed %d of %d messages", rx, k+1)
		}
	})
}
