package relay

import (
	"bytes"
	"fmt"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/icon-project/btp/chain/icon/bridge"
	"github.com/icon-project/btp/chain/icon/btp2"
	"github.com/icon-project/btp/common/link"
	"github.com/icon-project/btp/common/types"

	"verif/gocheck/fake"
	"verif/gocheck/pbt"
)

const (
	srcAccount = "cx0000000000000000000000000000000000000007"
	srcAddr    = types.BtpAddress("btp://0x1.icon/" + srcAccount)
	dstAddr    = types.BtpAddress("btp://0x2.icon/cx0000000000000000000000000000000000000009")
)

type blk struct {
	h, sn int64
	msgs  [][]byte
	flag  int64
	proof []byte
}

func (b *blk) last(base int64) int64 { return base + b.sn + int64(len(b.msgs)) }

// history is what a source network publishes.
type history struct {
	nid, start, offset int64
	blocks             []*blk
}

func genHistory(t *rapid.T, maxBlocks, maxMsgs, maxLen int) *history {
	h := &history{
		nid:    rapid.Int64Range(1, 300).Draw(t, "nid"),
		start:  rapid.OneOf(rapid.Int64Range(1, 500), rapid.SampledFrom([]int64{127, 1<<24 + 3, 1<<31 - 2, 1 << 40})).Draw(t, "start"),
		offset: rapid.SampledFrom([]int64{0, 0, 1, 5, 1000, 1<<31 - 3, 1 << 40}).Draw(t, "offset"),
	}
	n := rapid.IntRange(1, maxBlocks).Draw(t, "blocks")
	at := h.start + 1
	sn := int64(0)
	uniq := 0
	// the first block of a network holds no messages
	h.blocks = append(h.blocks, &blk{h: at, sn: 0, flag: 1, proof: []byte{1}})
	for i := 0; i < n; i++ {
		at += rapid.SampledFrom([]int64{1, 1, 2, 7}).Draw(t, "gap")
		k := rapid.SampledFrom([]int{0, 1, 1, 2, 3, 4, 5, 7, 8, maxMsgs}).Draw(t, "msgs")
		if k > maxMsgs {
			k = maxMsgs
		}
		crowded := maxMsgs >= 9 && pbt.Pct(t, "crowded", 1)
		if crowded {
			k = rapid.IntRange(100, 300).Draw(t, "crowd")
		}
		b := &blk{h: at, sn: sn, flag: int64(rapid.IntRange(0, 1).Draw(t, "flag")),
			proof: rapid.SliceOfN(rapid.Byte(), 0, 90).Draw(t, "proof")}
		for j := 0; j < k; j++ {
			l := 3
			if !crowded {
				l = rapid.SampledFrom([]int{0, 1, 33, 55, 56, 60, maxLen}).Draw(t, "len")
			}
			m := bytes.Repeat([]byte{byte(uniq)}, l)
			if crowded || l > 1 && rapid.IntRange(0, 4).Draw(t, "uniq") > 0 {
				m[0], m[1] = byte(uniq>>8), byte(uniq)
			}
			uniq++
			b.msgs = append(b.msgs, m)
		}
		sn += int64(k)
		h.blocks = append(h.blocks, b)
	}
	return h
}

func (h *history) publish(s *fake.IconSource, from, to int) {
	for _, b := range h.blocks[from:to] {
		s.Publish(b.h, b.sn, b.flag, b.msgs, b.proof)
	}
}

func (h *history) String() string {
	s := fmt.Sprintf("start=%d offset=%d", h.start, h.offset)
	for _, b := range h.blocks[1:] {
		s += fmt.Sprintf(" %d:", b.h-h.start)
		for _, m := range b.msgs {
			s += fmt.Sprintf("%d,", len(m))
		}
	}
	return s
}

func newSource(h *history) *fake.IconSource {
	s := fake.NewIconSource(h.nid, h.start, h.offset)
	s.Src, s.Dst, s.SrcAccount = srcAddr.String(), dstAddr.String(), srcAccount
	return s
}

func recvStatus(t *rapid.T, ch <-chan link.ReceiveStatus, what string) link.ReceiveStatus {
	select {
	case rs, ok := <-ch:
		if !ok {
			t.Fatalf("the channel of receive statuses was closed, expected %s", what)
		}
		return rs
	case <-time.After(20 * time.Second):
		t.Fatalf("no receive status for %s", what)
	}
	return nil
}

// drain lets the monitor of an abandoned receiver end.
func drain(ch <-chan link.ReceiveStatus) {
	go func() {
		for {
			select {
			case _, ok := <-ch:
				if !ok {
					return
				}
			case <-time.After(5 * time.Second):
				return
			}
		}
	}()
}

// TestR02_BTP2Receiver drives the BTP block receiver the way a link does.
func TestR02_BTP2Receiver(t *testing.T) {
	pbt.Check(t, 150, "a block with at least two messages was relayed in more than one proof, or several blocks were relayed",
		func(t *rapid.T, c *pbt.Case) {
			h := genHistory(t, 6, 9, 120)
			from := rapid.IntRange(0, len(h.blocks)-1).Draw(t, "from")
			rxBase := rapid.SampledFrom([]int64{0, 0, 3, 1<<31 - 3, 1 << 40}).Draw(t, "rxbase")
			c.Key("%s from=%d rxbase=%d", h, from, rxBase)
			s := newSource(h)
			defer s.Close()
			published := rapid.IntRange(from+1, len(h.blocks)).Draw(t, "published")
			h.publish(s, 0, published)

			bls := &types.BMCLinkStatus{TxSeq: 4, RxSeq: h.blocks[from].last(rxBase)}
			if from == 0 {
				bls.RxSeq = rxBase
			}
			bls.Verifier.Height = h.blocks[from].h
			if from == 0 && rapid.Bool().Draw(t, "beforeFirst") {
				bls.Verifier.Height = h.start // the receiver has to skip the first block itself
			}
			base := bls.RxSeq - h.blocks[from].last(0)
			dest := fake.NewBTPDest(h.nid, bls.Verifier.Height, bls.RxSeq, base)

			var failing atomic.Bool
			s.Fail = func(c *fake.Call) *fake.RPCError {
				if failing.Load() && (c.Method == "btp_getHeader" || c.Method == "btp_getProof") {
					return &fake.RPCError{Code: -31000, Message: "busy"}
				}
				return nil
			}

			var r link.Receiver = btp2.NewBTP2(srcAddr, dstAddr, s.URL, fake.Quiet())
			if _, err := r.GetStatus(); err == nil {
				t.Fatalf("a receiver without receive statuses has a status")
			}
			startBls := *bls
			ch, err := r.Start(&startBls)
			if err != nil {
				t.Fatalf("start: %v", err)
			}
			defer drain(ch)
			read := from // index of the last block whose status was read
			multi := 0
			var pendingItems []link.RelayMessageItem
			flush := func() {
				if len(pendingItems) == 0 {
					return
				}
				m, err := r.BuildRelayMessage(pendingItems)
				if err != nil {
					t.Fatalf("relay message of %d items: %v", len(pendingItems), err)
				}
				if err := dest.Receive(m); err != nil {
					t.Fatalf("the destination refuses the relay message: %v", err)
				}
				ts, ps, _ := fake.DecodeItems(m)
				if len(ts) != len(pendingItems) {
					t.Fatalf("relay message of %d items holds %d", len(pendingItems), len(ts))
				}
				for i := range ts {
					if int64(len(ps[i])) != pendingItems[i].Len() {
						t.Fatalf("item of length %d serialised to %d bytes", pendingItems[i].Len(), len(ps[i]))
					}
					if ts[i] == 1 {
						hb, pb, err := fake.DecodeBlockUpdate(ps[i])
						if err != nil {
							t.Fatalf("block update: %v", err)
						}
						hd, err := fake.DecodeBTPHeader(hb)
						if err != nil {
							t.Fatalf("block update: %v", err)
						}
						for _, b := range h.blocks {
							if b.h == hd.MainHeight && !bytes.Equal(b.proof, pb) {
								t.Fatalf("block update of %d carries another proof", b.h)
							}
						}
					}
				}
				pendingItems = nil
			}
			steps := 0
			for bls.Verifier.Height < h.blocks[len(h.blocks)-1].h {
				if steps++; steps > 400 {
					t.Fatalf("no progress at height %d", bls.Verifier.Height)
				}
				act := rapid.SampledFrom([]string{"read", "read", "publish", "build", "build", "fail"}).Draw(t, "act")
				switch act {
				case "publish":
					if published < len(h.blocks) {
						h.publish(s, published, published+1)
						published++
					}
				case "read":
					if read+1 >= published {
						continue
					}
					read++
					b := h.blocks[read]
					rs := recvStatus(t, ch, fmt.Sprintf("block %d", b.h))
					if rs.Height() != b.h || rs.Seq() != b.last(base) {
						t.Fatalf("receive status height=%d seq=%d, the block has height=%d and its last message seq=%d",
							rs.Height(), rs.Seq(), b.h, b.last(base))
					}
					st, err := r.GetStatus()
					if err != nil && bls.Verifier.Height < b.h || err == nil && st.Height() < b.h {
						t.Fatalf("status of the receiver after block %d: %v %v", b.h, st, err)
					}
				case "fail":
					// at least one block is pending
					if read == from || h.blocks[read].h <= bls.Verifier.Height {
						continue
					}
					failing.Store(true)
					bus, err := r.BuildBlockUpdate(bls, 1<<20)
					failing.Store(false)
					if err == nil {
						t.Fatalf("block updates built without the header of the block: %d", len(bus))
					}
				case "build":
					limit := rapid.SampledFrom([]int64{0, 150, 250, 300, 1 << 20}).Draw(t, "limit")
					bus, err := r.BuildBlockUpdate(bls, limit)
					if err != nil {
						t.Fatalf("block updates at %d: %v", bls.Verifier.Height, err)
					}
					idx := 0
					for idx == 0 || h.blocks[idx].h <= bls.Verifier.Height {
						idx++
					}
					if len(bus) == 0 && limit == 1<<20 && read >= idx {
						t.Fatalf("no block update for the pending block %d", h.blocks[idx].h)
					}
					take := len(bus)
					if take > 1 {
						take = rapid.IntRange(1, len(bus)).Draw(t, "take")
					}
					for i, bu := range bus {
						if idx+i >= len(h.blocks) || bu.TargetHeight() != h.blocks[idx+i].h {
							t.Fatalf("block update %d is for height %d", i, bu.TargetHeight())
						}
						if bu.Len() > limit {
							t.Fatalf("block update of %d bytes with limit %d", bu.Len(), limit)
						}
						if bu.Type() != link.TypeBlockUpdate {
							t.Fatalf("block update has type %d", bu.Type())
						}
						if i >= take {
							continue
						}
						b := h.blocks[idx+i]
						if idx+i > read {
							break // not notified yet
						}
						rx, tx := bls.RxSeq, bls.TxSeq
						if err := bu.UpdateBMCLinkStatus(bls); err != nil {
							t.Fatalf("%v", err)
						}
						if bls.Verifier.Height != b.h || bls.RxSeq != rx || bls.TxSeq != tx {
							t.Fatalf("block update of %d turns rx=%d tx=%d into height=%d rx=%d tx=%d",
								b.h, rx, tx, bls.Verifier.Height, bls.RxSeq, bls.TxSeq)
						}
						pendingItems = append(pendingItems, bu)
						proofs := 0
						for bls.RxSeq < b.last(base) {
							if pbt.Pct(t, "again", 25) {
								// what the destination lost is asked for again
								lo := b.last(base) - int64(len(b.msgs))
								bls2 := *bls
								bls2.RxSeq = rapid.Int64Range(lo, b.last(base)-1).Draw(t, "at")
								mp, err := r.BuildMessageProof(&bls2, rapid.SampledFrom([]int64{0, 200, 1 << 20}).Draw(t, "alimit"))
								if err != nil || mp == nil {
									t.Fatalf("message proof at height %d after %d of the messages up to %d: %v %v", b.h, bls2.RxSeq, b.last(base), mp, err)
								}
								m, err := r.BuildRelayMessage([]link.RelayMessageItem{mp})
								if err != nil {
									t.Fatalf("relay message: %v", err)
								}
								d2 := fake.NewBTPDest(h.nid, b.h, lo, base)
								if err := d2.Stand(s, b.h, int(bls2.RxSeq-lo)); err != nil {
									t.Fatalf("%v", err)
								}
								if err := d2.Receive(m); err != nil {
									t.Fatalf("a destination at message %d of block %d refuses the relay message: %v", bls2.RxSeq, b.h, err)
								}
								if _, rx := d2.State(); rx != mp.LastSeqNum() {
									t.Fatalf("the proof announced messages up to %d, the destination received %d", mp.LastSeqNum(), rx)
								}
								for k, x := range d2.Got() {
									if !bytes.Equal(x, b.msgs[bls2.RxSeq-lo+int64(k)]) {
										t.Fatalf("message %d of block %d was handed out as another one when asked for again", bls2.RxSeq+int64(k)+1, b.h)
									}
								}
							}
							pl := rapid.SampledFrom([]int64{0, 100, 200, 300, 1 << 20}).Draw(t, "plimit")
							mp, err := r.BuildMessageProof(bls, pl)
							if err != nil || mp == nil {
								t.Fatalf("message proof at height %d after %d of the messages up to %d: %v %v", b.h, bls.RxSeq, b.last(base), mp, err)
							}
							n := mp.LastSeqNum() - bls.RxSeq
							if n < 1 || mp.LastSeqNum() > b.last(base) {
								t.Fatalf("message proof after %d ends at %d, block ends at %d", bls.RxSeq, mp.LastSeqNum(), b.last(base))
							}
							if n > 1 && mp.Len() > pl {
								t.Fatalf("message proof of %d messages has %d bytes with limit %d", n, mp.Len(), pl)
							}
							if mp.Type() != link.TypeMessageProof {
								t.Fatalf("message proof has type %d", mp.Type())
							}
							if got := r.GetHeightForSeq(b.last(base)); got != b.h {
								t.Fatalf("height of message %d is %d, expected %d", b.last(base), got, b.h)
							}
							wantRx := mp.LastSeqNum()
							if pl == 1<<20 && wantRx != b.last(base) {
								t.Fatalf("message proof with room for all messages up to %d ends at %d", b.last(base), wantRx)
							}
							if err := mp.UpdateBMCLinkStatus(bls); err != nil {
								t.Fatalf("%v", err)
							}
							if bls.RxSeq != wantRx || bls.Verifier.Height != b.h || bls.TxSeq != tx {
								t.Fatalf("message proof up to %d turns the status into height=%d rx=%d", wantRx, bls.Verifier.Height, bls.RxSeq)
							}
							pendingItems = append(pendingItems, mp)
							proofs++
							if rapid.Bool().Draw(t, "flush") {
								flush()
								if _, rx := dest.State(); rx != bls.RxSeq {
									t.Fatalf("the proof announced messages up to %d, the destination received %d", bls.RxSeq, rx)
								}
							}
						}
						if mp, err := r.BuildMessageProof(bls, 1<<20); err != nil || mp != nil {
							t.Fatalf("message proof after the last message of block %d: %v %v", b.h, mp, err)
						}
						multi += proofs
						c.NonTrivial(proofs > 1 || multi > 1)
					}
				}
			}
			flush()
			var want [][]byte
			for _, b := range h.blocks[from+1:] {
				want = append(want, b.msgs...)
			}
			got := dest.Got()
			if len(got) != len(want) {
				t.Fatalf("%d messages were published, %d arrived", len(want), len(got))
			}
			for i := range got {
				if !bytes.Equal(got[i], want[i]) {
					t.Fatalf("message %d arrived as another one", i)
				}
			}
			if len(s.Bad) > 0 {
				t.Fatalf("requests the network does not understand: %v", s.Bad)
			}
		})
}

// TestR03_BridgeReceiver drives the bridge receiver the way a link does, also
// from the middle of a block.
func TestR03_BridgeReceiver(t *testing.T) {
	pbt.Check(t, 150, "a block was relayed in more than one proof, several blocks were relayed, or the start was within a block",
		func(t *rapid.T, c *pbt.Case) {
			h := genHistory(t, 6, 9, 120)
			from := rapid.IntRange(0, len(h.blocks)-1).Draw(t, "from")
			base := h.offset
			b0 := h.blocks[from]
			bls := &types.BMCLinkStatus{TxSeq: 4, RxSeq: b0.last(base)}
			mid := 0
			if len(b0.msgs) > 0 {
				mid = rapid.IntRange(0, len(b0.msgs)).Draw(t, "left")
				bls.RxSeq -= int64(mid)
			}
			bls.Verifier.Height = b0.h
			c.Key("%s from=%d left=%d", h, from, mid)
			c.NonTrivial(mid > 0 && mid < len(b0.msgs))
			s := newSource(h)
			defer s.Close()
			published := rapid.IntRange(from+1, len(h.blocks)).Draw(t, "published")
			h.publish(s, 0, published)
			dest := &fake.BridgeDest{Next: dstAddr.String(), Height: bls.Verifier.Height, Rx: bls.RxSeq}

			var r link.Receiver = bridge.NewBridge(srcAddr, dstAddr, s.URL, fake.Quiet())
			if _, err := r.GetStatus(); err == nil {
				t.Fatalf("a receiver without receive statuses has a status")
			}
			startBls, startRx := *bls, bls.RxSeq
			ch, err := r.Start(&startBls)
			if err != nil {
				t.Fatalf("start: %v", err)
			}
			defer drain(ch)
			next := from // index of the next block whose status is read
			if from == 0 {
				next = 1
			}
			proofsTotal := 0
			lastH := h.blocks[len(h.blocks)-1].h
			lastSeq := h.blocks[len(h.blocks)-1].last(base)
			steps := 0
			for next < len(h.blocks) || bls.Verifier.Height < lastH || bls.RxSeq < lastSeq {
				if steps++; steps > 400 {
					t.Fatalf("no progress at height %d", bls.Verifier.Height)
				}
				switch rapid.SampledFrom([]string{"read", "read", "publish", "build", "build"}).Draw(t, "act") {
				case "publish":
					if published < len(h.blocks) {
						h.publish(s, published, published+1)
						published++
					}
				case "read":
					if next >= published {
						continue
					}
					b := h.blocks[next]
					next++
					rs := recvStatus(t, ch, fmt.Sprintf("block %d", b.h))
					if rs.Height() != b.h || rs.Seq() != b.last(base) {
						t.Fatalf("receive status height=%d seq=%d, the block has height=%d and its last message seq=%d",
							rs.Height(), rs.Seq(), b.h, b.last(base))
					}
					st, err := r.GetStatus()
					if err != nil && bls.Verifier.Height < b.h || err == nil && st.Height() < b.h {
						t.Fatalf("status of the receiver after block %d: %v %v", b.h, st, err)
					}
				case "build":
					bus, err := r.BuildBlockUpdate(bls, rapid.SampledFrom([]int64{0, 100, 1 << 20}).Draw(t, "limit"))
					if err != nil {
						t.Fatalf("block updates at %d: %v", bls.Verifier.Height, err)
					}
					idx := 0
					for idx < len(h.blocks) && (idx < from || idx == 0 || h.blocks[idx].h <= bls.Verifier.Height && h.blocks[idx].last(base) <= bls.RxSeq) {
						idx++
					}
					if len(bus) == 0 && next > idx {
						t.Fatalf("no block update for the pending block %d", h.blocks[idx].h)
					}
					take := len(bus)
					if take > 1 {
						take = rapid.IntRange(1, len(bus)).Draw(t, "take")
					}
					for i, bu := range bus {
						if idx+i >= len(h.blocks) || bu.TargetHeight() != h.blocks[idx+i].h {
							t.Fatalf("block update %d is for height %d, expected the pending ones from %d", i, bu.TargetHeight(), idx)
						}
						if idx+i >= next || i >= take {
							continue
						}
						b := h.blocks[idx+i]
						rx, tx := bls.RxSeq, bls.TxSeq
						if err := bu.UpdateBMCLinkStatus(bls); err != nil {
							t.Fatalf("%v", err)
						}
						if bls.Verifier.Height != b.h || bls.RxSeq != rx || bls.TxSeq != tx {
							t.Fatalf("block update of %d turns rx=%d tx=%d into height=%d rx=%d tx=%d",
								b.h, rx, tx, bls.Verifier.Height, bls.RxSeq, bls.TxSeq)
						}
						if m, err := r.BuildRelayMessage([]link.RelayMessageItem{bu}); err != nil || len(m) != 0 {
							t.Fatalf("relay message of a block update without messages: %d bytes, %v", len(m), err)
						}
						proofs := 0
						for bls.RxSeq < b.last(base) {
							if pbt.Pct(t, "again", 25) {
								// what the destination lost is asked for again
								lo := b.last(base) - int64(len(b.msgs))
								at := lo
								if idx+i == from {
									at = startRx
								}
								bls2 := *bls
								bls2.RxSeq = rapid.Int64Range(at, b.last(base)-1).Draw(t, "at")
								mp, err := r.BuildMessageProof(&bls2, rapid.SampledFrom([]int64{0, 200, 1 << 20}).Draw(t, "alimit"))
								if err != nil || mp == nil {
									t.Fatalf("message proof at height %d after %d of the messages up to %d: %v %v", b.h, bls2.RxSeq, b.last(base), mp, err)
								}
								m, err := r.BuildRelayMessage([]link.RelayMessageItem{bu, mp})
								if err != nil {
									t.Fatalf("relay message: %v", err)
								}
								d2 := &fake.BridgeDest{Next: dstAddr.String(), Height: b.h, Rx: bls2.RxSeq}
								if err := d2.Receive(m); err != nil {
									t.Fatalf("a destination at message %d of block %d refuses the relay message: %v", bls2.RxSeq, b.h, err)
								}
								for k, x := range d2.Got() {
									if !bytes.Equal(x, b.msgs[bls2.RxSeq-lo+int64(k)]) {
										t.Fatalf("message %d of block %d was handed out as another one when asked for again", bls2.RxSeq+int64(k)+1, b.h)
									}
								}
							}
							pl := rapid.SampledFrom([]int64{0, 100, 200, 300, 1 << 20}).Draw(t, "plimit")
							if got := r.GetHeightForSeq(bls.RxSeq + 1); got != b.h {
								t.Fatalf("height of message %d is %d, expected %d", bls.RxSeq+1, got, b.h)
							}
							mp, err := r.BuildMessageProof(bls, pl)
							if err != nil || mp == nil {
								t.Fatalf("message proof at height %d after %d of the messages up to %d: %v %v", b.h, bls.RxSeq, b.last(base), mp, err)
							}
							n := mp.LastSeqNum() - bls.RxSeq
							if n < 1 || mp.LastSeqNum() > b.last(base) {
								t.Fatalf("message proof after %d ends at %d, block ends at %d", bls.RxSeq, mp.LastSeqNum(), b.last(base))
							}
							if n > 1 && mp.Len() > pl+60 {
								t.Fatalf("message proof of %d messages has %d bytes with limit %d", n, mp.Len(), pl)
							}
							wantRx := mp.LastSeqNum()
							if pl == 1<<20 && wantRx != b.last(base) {
								t.Fatalf("message proof with room for all messages up to %d ends at %d", b.last(base), wantRx)
							}
							if err := mp.UpdateBMCLinkStatus(bls); err != nil {
								t.Fatalf("%v", err)
							}
							if bls.RxSeq != wantRx || bls.Verifier.Height != b.h || bls.TxSeq != tx {
								t.Fatalf("message proof up to %d turns the status into height=%d rx=%d", wantRx, bls.Verifier.Height, bls.RxSeq)
							}
							m, err := r.BuildRelayMessage([]link.RelayMessageItem{bu, mp})
							if err != nil {
								t.Fatalf("relay message: %v", err)
							}
							if err := dest.Receive(m); err != nil {
								t.Fatalf("the destination refuses the relay message: %v", err)
							}
							if _, rx := dest.State(); rx != bls.RxSeq {
								t.Fatalf("the proof announced messages up to %d, the destination received %d", bls.RxSeq, rx)
							}
							proofs++
							proofsTotal++
						}
						c.NonTrivial(proofs > 1 || proofsTotal > 1)
					}
				}
			}
			var want [][]byte
			var wantH []int64
			for i, b := range h.blocks {
				ms := b.msgs
				if i < from {
					continue
				}
				if i == from {
					ms = ms[len(ms)-mid:]
				}
				for _, m := range ms {
					want = append(want, m)
					wantH = append(wantH, b.h)
				}
			}
			got := dest.Got()
			if len(got) != len(want) {
				t.Fatalf("%d messages were published, %d arrived", len(want), len(got))
			}
			for i := range got {
				if !bytes.Equal(got[i], want[i]) || dest.Heights[i] != wantH[i] {
					t.Fatalf("message %d arrived as another one or from another height", i)
				}
			}
			if len(s.Bad) > 0 {
				t.Fatalf("requests the network does not understand: %v", s.Bad)
			}
		})
}

// A receiver that cannot learn about its network reports it.
func startFails(t *testing.T, quick int, mk func(url string) link.Receiver) {
	pbt.Check(t, quick, "a start query failed", func(t *rapid.T, c *pbt.Case) {
		h := genHistory(t, 2, 2, 60)
		s := newSource(h)
		defer s.Close()
		h.publish(s, 0, len(h.blocks))
		which := rapid.SampledFrom([]string{"icx_call", "btp_getNetworkInfo", "none"}).Draw(t, "which")
		c.Key("%s %s", which, h)
		c.NonTrivial(which != "none")
		s.Fail = func(c *fake.Call) *fake.RPCError {
			if c.Method == which {
				return &fake.RPCError{Code: -32000, Message: "no"}
			}
			return nil
		}
		bls := &types.BMCLinkStatus{}
		bls.Verifier.Height = h.start + 1
		r := mk(s.URL)
		var ch <-chan link.ReceiveStatus
		var err error
		if !pbt.Within(20*time.Second, func() { ch, err = r.Start(bls) }) {
			t.Fatalf("start does not return")
		}
		if (err != nil) != (which != "none") {
			t.Fatalf("start with %s failing: %v", which, err)
		}
		if err == nil {
			drain(ch)
		}
	})
}

func TestR02_Start(t *testing.T) {
	startFails(t, 40, func(u string) link.Receiver { return btp2.NewBTP2(srcAddr, dstAddr, u, fake.Quiet()) })
}

func TestR03_Start(t *testing.T) {
	startFails(t, 40, func(u string) link.Receiver { return bridge.NewBridge(srcAddr, dstAddr, u, fake.Quiet()) })
}

type mark struct{ height, seq int64 }

// inOrder reads receive statuses while queries fail: whatever the receiver does
// about a failure, the statuses are the expected ones from the first on, none
// left out. Without a failure, or when patient, all of them come.
func inOrder(t *rapid.T, c *pbt.Case, ch <-chan link.ReceiveStatus, want []mark, failed *atomic.Bool, patient bool) {
	defer drain(ch)
	got, quiet, after := 0, 0, 0
	for got < len(want) {
		select {
		case rs := <-ch:
			if rs == nil {
				t.Fatalf("an empty receive status")
			}
			if w := want[got]; rs.Height() != w.height || rs.Seq() != w.seq {
				t.Fatalf("receive status %d is of height %d and sequence %d; the next block with messages has height %d and last sequence %d (a query failed: %v)",
					got, rs.Height(), rs.Seq(), w.height, w.seq, failed.Load())
			}
			got++
			quiet, after = 0, 0
		case <-time.After(10 * time.Millisecond):
			quiet++
			if failed.Load() {
				after++
			}
			if after > 4 && !patient {
				c.Label("stopped")
				return
			}
			if quiet > 3000 {
				t.Fatalf("no receive status after %d of %d", got, len(want))
			}
		}
	}
	c.Label("all")
}

// failSome makes some of the calls of a method fail.
func failSome(t *rapid.T, methods []string, k int, failed *atomic.Bool) (string, func(c *fake.Call) *fake.RPCError) {
	m := rapid.SampledFrom(methods).Draw(t, "method")
	at := rapid.SampledFrom([]int{0, 0, 1, 2, 3, 5}).Draw(t, "at")
	var mtx sync.Mutex
	i := 0
	return fmt.Sprintf("%s %d+%d", m, at, k), func(c *fake.Call) *fake.RPCError {
		if c.Method != m {
			return nil
		}
		mtx.Lock()
		defer mtx.Unlock()
		i++
		if i > at && i <= at+k {
			failed.Store(true)
			return &fake.RPCError{Code: -32000, Message: "busy"}
		}
		return nil
	}
}

func failingQueries(t *testing.T, bridged bool, mk func(url string) link.Receiver) {
	pbt.CheckSlow(t, 60, "a query failed while blocks were left", func(t *rapid.T, c *pbt.Case) {
		h := genHistory(t, 8, 5, 60)
		from := rapid.IntRange(0, len(h.blocks)-1).Draw(t, "from")
		s := newSource(h)
		defer s.Close()
		h.publish(s, 0, len(h.blocks))
		var failed atomic.Bool
		times := rapid.SampledFrom([]int{1, 1, 2, 1000}).Draw(t, "times")
		methods := []string{"btp_getMessages", "btp_getMessages", "btp_getMessages", "icx_call"}
		// a failure that passes: the query is made again
		patient := times < 3 && pbt.Pct(t, "patient", 25)
		if patient {
			methods = methods[:1]
		}
		what, f := failSome(t, methods, times, &failed)
		base := int64(0)
		var want []mark
		next := from + 1
		if bridged {
			base = h.offset
			if next = from; from == 0 {
				next = 1
			}
		}
		for _, b := range h.blocks[next:] {
			want = append(want, mark{b.h, b.last(base)})
		}
		bls := &types.BMCLinkStatus{TxSeq: 4, RxSeq: h.blocks[from].last(base)}
		if bridged && from > 0 {
			bls.RxSeq -= int64(len(h.blocks[from].msgs))
		}
		bls.Verifier.Height = h.blocks[from].h
		c.Key("%s from=%d %s", h, from, what)
		r := mk(s.URL)
		s.Fail = f
		startBls := *bls
		ch, err := r.Start(&startBls)
		if err != nil {
			if !failed.Load() {
				t.Fatalf("start: %v", err)
			}
			return
		}
		inOrder(t, c, ch, want, &failed, patient)
		c.NonTrivial(failed.Load())
	})
}

func TestR02_FailingQueries(t *testing.T) {
	failingQueries(t, false, func(u string) link.Receiver { return btp2.NewBTP2(srcAddr, dstAddr, u, fake.Quiet()) })
}

func TestR03_FailingQueries(t *testing.T) {
	failingQueries(t, true, func(u string) link.Receiver { return bridge.NewBridge(srcAddr, dstAddr, u, fake.Quiet()) })
}
