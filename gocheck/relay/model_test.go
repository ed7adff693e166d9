package relay

import (
	"encoding/json"
	"fmt"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/icon-project/btp/common/errors"
	"github.com/icon-project/btp/common/link"
	"github.com/icon-project/btp/common/types"

	"verif/gocheck/fake"
	"verif/gocheck/pbt"
)

// mItem is a relay message item of the model network.
type mItem struct {
	Kind   link.MessageItemType
	Height int64 // block update, block proof
	From   int64 // message proof: after this message
	To     int64
	Size   int64
	Proof  int64 // proof height of a block update
	src    int64
}

func (i *mItem) Type() link.MessageItemType { return i.Kind }
func (i *mItem) Len() int64                 { return i.Size }
func (i *mItem) ProofHeight() int64         { return i.Proof }
func (i *mItem) SrcHeight() int64           { return i.src }
func (i *mItem) TargetHeight() int64        { return i.Height }
func (i *mItem) StartSeqNum() int64         { return i.From }
func (i *mItem) LastSeqNum() int64          { return i.To }
func (i *mItem) UpdateBMCLinkStatus(bls *types.BMCLinkStatus) error {
	switch i.Kind {
	case link.TypeBlockUpdate:
		bls.Verifier.Height = i.Height
	case link.TypeMessageProof:
		bls.RxSeq = i.To
	}
	return nil
}

type mBlock struct {
	h, seq int64 // seq of the last message
	n      int64
	bu     int64 // size of the update
	msg    int64 // size of a message
}

func (b *mBlock) Height() int64 { return b.h }
func (b *mBlock) Seq() int64    { return b.seq }

// mReceiver is a receiver that knows blocks before it announces them.
type mReceiver struct {
	mtx        sync.Mutex
	known      []*mBlock
	ch         chan link.ReceiveStatus
	blockProof bool // the network has block proofs
	proofH     int64
	startErr   error
	one        bool // block updates are handed out one at a time
	again      bool // the update of a block is handed out until all of its messages have arrived
}

func (r *mReceiver) Start(bls *types.BMCLinkStatus) (<-chan link.ReceiveStatus, error) {
	return r.ch, r.startErr
}
func (r *mReceiver) Stop() { close(r.ch) }
func (r *mReceiver) GetStatus() (link.ReceiveStatus, error) {
	r.mtx.Lock()
	defer r.mtx.Unlock()
	if len(r.known) == 0 {
		return nil, fmt.Errorf("none")
	}
	return r.known[len(r.known)-1], nil
}

func (r *mReceiver) BuildBlockUpdate(bls *types.BMCLinkStatus, limit int64) ([]link.BlockUpdate, error) {
	r.mtx.Lock()
	defer r.mtx.Unlock()
	var out []link.BlockUpdate
	for _, b := range r.known {
		if b.h <= bls.Verifier.Height && !(r.again && b.seq > bls.RxSeq) {
			continue
		}
		if b.bu > limit {
			break
		}
		ph := b.h
		if r.proofH != 1 {
			ph = r.proofH
		}
		out = append(out, &mItem{Kind: link.TypeBlockUpdate, Height: b.h, Size: b.bu, Proof: ph, src: bls.Verifier.Height})
		if r.one {
			break
		}
	}
	return out, nil
}

func (r *mReceiver) BuildBlockProof(bls *types.BMCLinkStatus, height int64) (link.BlockProof, error) {
	if !r.blockProof {
		return nil, nil
	}
	return &mItem{Kind: link.TypeBlockProof, Height: bls.Verifier.Height, Size: 3}, nil
}

func (r *mReceiver) BuildMessageProof(bls *types.BMCLinkStatus, limit int64) (link.MessageProof, error) {
	r.mtx.Lock()
	defer r.mtx.Unlock()
	for _, b := range r.known {
		if b.h != bls.Verifier.Height || b.seq <= bls.RxSeq {
			continue
		}
		n := limit / b.msg
		if n < 1 {
			n = 1
		}
		if n > b.seq-bls.RxSeq {
			n = b.seq - bls.RxSeq
		}
		return &mItem{Kind: link.TypeMessageProof, Height: b.h, From: bls.RxSeq, To: bls.RxSeq + n, Size: n * b.msg}, nil
	}
	return nil, nil
}

func (r *mReceiver) GetHeightForSeq(seq int64) int64 {
	r.mtx.Lock()
	defer r.mtx.Unlock()
	for _, b := range r.known {
		if b.n > 0 && seq <= b.seq && seq > b.seq-b.n {
			return b.h
		}
	}
	return 0
}

func (r *mReceiver) BuildRelayMessage(rmis []link.RelayMessageItem) ([]byte, error) {
	var out []*mItem
	for _, i := range rmis {
		out = append(out, i.(*mItem))
	}
	return json.Marshal(out)
}

func (r *mReceiver) learn(b *mBlock) {
	r.mtx.Lock()
	r.known = append(r.known, b)
	r.mtx.Unlock()
}

// mDest verifies the items of the model network.
type mDest struct {
	mtx    sync.Mutex
	blocks []*mBlock
	h, rx  int64
	limit  int64
	items  int
	again  bool // the update of the last block may come again
}

func (d *mDest) block(h int64) *mBlock {
	for _, b := range d.blocks {
		if b.h == h {
			return b
		}
	}
	return nil
}

func (d *mDest) Receive(m []byte) error {
	d.mtx.Lock()
	defer d.mtx.Unlock()
	var items []*mItem
	if err := json.Unmarshal(m, &items); err != nil {
		return err
	}
	if len(items) == 0 {
		return fmt.Errorf("empty relay message")
	}
	sum := int64(0)
	h, rx := d.h, d.rx
	for _, i := range items {
		sum += i.Size
		switch i.Kind {
		case link.TypeBlockUpdate:
			if d.again && i.Height == h {
				continue
			}
			if cur := d.block(h); cur != nil && cur.seq != rx {
				return fmt.Errorf("block %d while messages up to %d of block %d are missing", i.Height, cur.seq, h)
			}
			next := int64(0)
			for _, b := range d.blocks {
				if b.h > h {
					next = b.h
					break
				}
			}
			if i.Height != next {
				return fmt.Errorf("block %d after %d", i.Height, h)
			}
			h = i.Height
		case link.TypeBlockProof:
		case link.TypeMessageProof:
			b := d.block(h)
			if b == nil || i.Height != h {
				return fmt.Errorf("messages of block %d at %d", i.Height, h)
			}
			if i.From != rx || i.To <= i.From || i.To > b.seq {
				return fmt.Errorf("messages %d..%d of block %d after %d", i.From+1, i.To, h, rx)
			}
			rx = i.To
		default:
			return fmt.Errorf("item of type %d", i.Kind)
		}
	}
	if last := items[len(items)-1]; d.limit > 0 && sum > d.limit &&
		!(last.Kind == link.TypeMessageProof && last.To == last.From+1) {
		return fmt.Errorf("items of %d bytes with limit %d", sum, d.limit)
	}
	d.h, d.rx = h, rx
	d.items += len(items)
	return nil
}

func (d *mDest) State() (int64, int64) {
	d.mtx.Lock()
	defer d.mtx.Unlock()
	return d.h, d.rx
}

func (d *mDest) Got() [][]byte { return nil }

func genModel(t *rapid.T, c *pbt.Case, max int) (*mDest, int64) {
	d := &mDest{h: rapid.Int64Range(1, 9).Draw(t, "h0"), rx: rapid.SampledFrom([]int64{0, 5}).Draw(t, "rx0")}
	h, seq := d.h, d.rx
	maxBU := int64(0)
	n := rapid.IntRange(1, max).Draw(t, "blocks")
	desc := ""
	for i := 0; i < n; i++ {
		h += int64(rapid.IntRange(1, 3).Draw(t, "gap"))
		k := int64(rapid.SampledFrom([]int{0, 1, 2, 3, 6}).Draw(t, "n"))
		b := &mBlock{h: h, n: k, seq: seq + k,
			bu:  rapid.SampledFrom([]int64{0, 1, 10, 50}).Draw(t, "bu"),
			msg: rapid.SampledFrom([]int64{1, 10, 40}).Draw(t, "msg")}
		seq += k
		if b.bu > maxBU {
			maxBU = b.bu
		}
		d.blocks = append(d.blocks, b)
		desc += fmt.Sprintf(" %d:%dx%d+%d", b.h, b.n, b.msg, b.bu)
	}
	c.Key("%d/%d%s", d.h, d.rx, desc)
	return d, maxBU
}

// TestL01_Model relays through a link over a model receiver that is ahead of
// what it has announced, with and without block proofs.
func TestL01_Model(t *testing.T) {
	pbt.Check(t, 600, "at least two relay messages were needed", func(t *rapid.T, c *pbt.Case) {
		d, maxBU := genModel(t, c, 8)
		r := &mReceiver{ch: make(chan link.ReceiveStatus), blockProof: rapid.Bool().Draw(t, "bp"),
			proofH: rapid.SampledFrom([]int64{1, 1, 0}).Draw(t, "ph"), one: rapid.Bool().Draw(t, "one")}
		extra := rapid.SampledFrom([]int64{0, 1, 9, 30, 100, 1 << 30}).Draw(t, "limit")
		margin := rapid.SampledFrom([]int64{0, 5}).Draw(t, "margin")
		d.limit = maxBU + extra
		snd := newModelSender(d, int(maxBU+extra+margin), margin)
		snd.confirm = rapid.Bool().Draw(t, "confirm")
		c.Key("limit=%d margin=%d bp=%v ph=%d one=%v confirm=%v", d.limit, margin, r.blockProof, r.proofH, r.one, snd.confirm)
		if r.blockProof {
			d.limit = 0 // block proofs come on top
		}
		l := link.NewLink(linkCfg(), r, fake.Quiet())
		ended := make(chan error, 1)
		go func() { ended <- l.Start(snd) }()
		known := 0
		for i, b := range d.blocks {
			ahead := i + 1
			if rapid.IntRange(0, 2).Draw(t, "ahead") == 0 {
				ahead = rapid.IntRange(i+1, len(d.blocks)).Draw(t, "by")
			}
			for ; known < ahead; known++ {
				r.learn(d.blocks[known])
			}
			select {
			case r.ch <- b:
			case err := <-ended:
				t.Fatalf("the link ended: %v", err)
			case <-time.After(20 * time.Second):
				t.Fatalf("the link does not take the status of block %d", b.h)
			}
			if rapid.Bool().Draw(t, "settle") || i == len(d.blocks)-1 {
				if !snd.await(20*time.Second, func() bool { h, rx := d.State(); return h >= b.h && rx >= b.seq }) {
					h, rx := d.State()
					t.Fatalf("the link stopped at height=%d rx=%d, announced height=%d rx=%d", h, rx, b.h, b.seq)
				}
			}
			if err := snd.failure(); err != nil {
				t.Fatalf("%v", err)
			}
		}
		last := d.blocks[len(d.blocks)-1]
		if h, rx := d.State(); h != last.h || rx != last.seq {
			t.Fatalf("the destination ended at height=%d rx=%d, announced height=%d rx=%d", h, rx, last.h, last.seq)
		}
		c.NonTrivial(snd.relays > 1)
		snd.wg.Wait()
		if !pbt.Within(20*time.Second, l.Stop) {
			t.Fatalf("stop of an idle link does not return")
		}
		select {
		case <-r.ch:
		default:
			t.Fatalf("the receiver of a stopped link was not stopped")
		}
		select {
		case <-snd.ch:
		default:
			t.Fatalf("the sender of a stopped link was not stopped")
		}
	})
}

// The codes a verifier on the other network reverts with.
const (
	bmvNotVerifiable   errors.Code = 26
	bmvAlreadyVerified errors.Code = 27
	bmvOldWitness      errors.Code = 28
)

// TestL02_Results relays while the destination refuses or loses relay
// messages and reports on them, about known and unknown relay messages.
func TestL02_Results(t *testing.T) {
	pbt.Check(t, 150, "a result other than success was reported while relaying", func(t *rapid.T, c *pbt.Case) {
		d, maxBU := genModel(t, c, 6)
		r := &mReceiver{ch: make(chan link.ReceiveStatus), proofH: 1}
		limit := 1 << 20
		// Without this a block whose messages need several relay messages is not taken up again.
		if r.again = rapid.Bool().Draw(t, "again"); r.again {
			d.again = true
			limit = int(maxBU) + rapid.SampledFrom([]int{1, 9, 30, 100, 1 << 20}).Draw(t, "limit")
		}
		c.Key("again=%v limit=%d", r.again, limit)
		snd := newModelSender(d, limit, 0)
		ls := &lossySender{modelSender: snd, lose: map[int]bool{}}
		for i := 0; i < 8; i++ {
			if rapid.IntRange(0, 3).Draw(t, "lose") == 0 {
				ls.lose[i] = true
			}
		}
		c.Key("lose=%v", ls.lose)
		l := link.NewLink(linkCfg(), r, fake.Quiet())
		ended := make(chan error, 1)
		go func() { ended <- l.Start(ls) }()
		send := func(m types.SenderMessage, what string) {
			select {
			case snd.ch <- m:
			case err := <-ended:
				t.Fatalf("the link ended: %v", err)
			case <-time.After(20 * time.Second):
				t.Fatalf("the link does not take %s", what)
			}
		}
		results := 0
		for i, b := range d.blocks {
			r.learn(b)
			select {
			case r.ch <- b:
			case err := <-ended:
				t.Fatalf("the link ended: %v", err)
			case <-time.After(20 * time.Second):
				t.Fatalf("the link does not take the status of block %d", b.h)
			}
			for rapid.IntRange(0, 2).Draw(t, "more") > 0 {
				kind := rapid.SampledFrom([]string{"already", "old", "status", "unverifiable"}).Draw(t, "result")
				id := ls.anyID(rapid.Uint8().Draw(t, "id"), rapid.Bool().Draw(t, "unknown"))
				c.Key("%s", kind)
				switch kind {
				case "already":
					send(&types.RelayResult{Id: id, Err: bmvAlreadyVerified}, "an already verified result")
				case "old":
					send(&types.RelayResult{Id: id, Err: bmvOldWitness}, "an old witness result")
				case "unverifiable":
					send(&types.RelayResult{Id: id, Err: bmvNotVerifiable}, "a not verifiable result")
				case "status":
					st, _ := ls.GetStatus()
					send(st, "a link status")
				}
				results++
			}
			_ = i
		}
		c.NonTrivial(results > 0)
		last := d.blocks[len(d.blocks)-1]
		done := func() bool { h, rx := d.State(); return h >= last.h && rx >= last.seq }
		// Whatever was lost is relayed again once the destination says it cannot verify.
		for i := 0; i < 40 && !done() && snd.failure() == nil; i++ {
			send(&types.RelayResult{Id: ls.anyID(0, false), Err: bmvNotVerifiable}, "a not verifiable result")
			snd.await(time.Duration(i*20)*time.Millisecond, done)
		}
		if err := snd.failure(); err != nil {
			t.Fatalf("%v", err)
		}
		if !done() {
			h, rx := d.State()
			t.Fatalf("the link did not recover: height=%d rx=%d of height=%d rx=%d", h, rx, last.h, last.seq)
		}
		if !pbt.Within(20*time.Second, l.Stop) {
			t.Fatalf("stop of an idle link does not return")
		}
		select {
		case <-r.ch:
		default:
			t.Fatalf("the receiver of a stopped link was not stopped")
		}
		select {
		case <-snd.ch:
		default:
			t.Fatalf("the sender of a stopped link was not stopped")
		}
	})
}

// lossySender loses some relay messages and refuses those that do not fit.
type lossySender struct {
	*modelSender
	lose map[int]bool
	n    int
	all  []int
}

func (s *lossySender) Relay(rm types.RelayMessage) (int, error) {
	s.mtx.Lock()
	defer s.mtx.Unlock()
	defer s.notify()
	i := s.n
	s.n++
	s.all = append(s.all, rm.Id())
	if s.lose[i] {
		return rm.Id(), nil
	}
	_ = s.d.Receive(rm.Bytes()) // refused if something before it is missing
	return rm.Id(), nil
}

func (s *lossySender) anyID(k uint8, unknown bool) int {
	s.mtx.Lock()
	defer s.mtx.Unlock()
	if unknown || len(s.all) == 0 {
		return -5
	}
	return s.all[int(k)%len(s.all)]
}

type errSender struct {
	*modelSender
	statusErr error
	onStatus  func()
}

func (s *errSender) GetStatus() (*types.BMCLinkStatus, error) {
	if s.statusErr != nil {
		return nil, s.statusErr
	}
	st, err := s.modelSender.GetStatus()
	if s.onStatus != nil {
		s.onStatus()
	}
	return st, err
}

// TestL02_StartFailure: a link that cannot start says so.
func TestL02_StartFailure(t *testing.T) {
	pbt.Check(t, 30, "the receiver or the status query failed", func(t *rapid.T, c *pbt.Case) {
		d := &mDest{h: 1}
		r := &mReceiver{ch: make(chan link.ReceiveStatus), proofH: 1}
		s := &errSender{modelSender: newModelSender(d, 1<<20, 0)}
		which := rapid.SampledFrom([]string{"receiver", "status", "later"}).Draw(t, "which")
		code := errors.Code(rapid.IntRange(1, 2000).Draw(t, "code"))
		e := errors.NewBase(code, "failing")
		c.Key("%s %d", which, code)
		c.NonTrivial(true)
		if which == "receiver" {
			r.startErr = e
		} else if which == "status" {
			s.statusErr = e
		}
		l := link.NewLink(linkCfg(), r, fake.Quiet())
		var err error
		if which == "later" {
			// the destination cannot be asked where it stands after a report
			s.onStatus = func() {
				s.statusErr = e
				go func() {
					select {
					case s.ch <- &types.RelayResult{Id: 1, Err: bmvNotVerifiable}:
					case <-time.After(20 * time.Second):
					}
				}()
			}
		}
		if !pbt.Within(20*time.Second, func() { err = l.Start(s) }) {
			t.Fatalf("the start of a link with a failing %s does not return", which)
		}
		if !errors.Is(err, e) {
			t.Fatalf("the start of a link with a failing %s: %v", which, err)
		}
	})
}
