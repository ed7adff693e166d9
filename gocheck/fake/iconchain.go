package fake

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"strconv"
	"strings"
	"sync"

	"github.com/gorilla/websocket"
	"golang.org/x/crypto/sha3"
)

// Hash is the hash of an "eth" BTP network.
func Hash(parts ...[]byte) []byte {
	h := sha3.NewLegacyKeccak256()
	for _, p := range parts {
		h.Write(p)
	}
	return h.Sum(nil)
}

// Seg is a run of leaves of a binary Merkle tree known by its hash.
type Seg struct {
	N    int
	Hash []byte
}

// SegRoot folds the runs into the root of the tree whose left subtree is
// always the largest full one, and fails when they do not line up with it.
func SegRoot(segs []Seg) ([]byte, error) {
	n := 0
	for _, s := range segs {
		if s.N < 1 {
			return nil, fmt.Errorf("run of %d leaves", s.N)
		}
		n += s.N
	}
	if len(segs) == 0 {
		return nil, nil
	}
	if len(segs) == 1 {
		return segs[0].Hash, nil
	}
	k := 1
	for k*2 < n {
		k *= 2
	}
	sum := 0
	for i := range segs {
		sum += segs[i].N
		if sum == k {
			l, err := SegRoot(segs[:i+1])
			if err != nil {
				return nil, err
			}
			r, err := SegRoot(segs[i+1:])
			if err != nil {
				return nil, err
			}
			return Hash(l, r), nil
		}
		if sum > k {
			break
		}
	}
	return nil, fmt.Errorf("runs do not line up at %d of %d", k, n)
}

// Leaves turns contents into runs.
func Leaves(contents [][]byte) []Seg {
	out := make([]Seg, len(contents))
	for i, c := range contents {
		out[i] = Seg{1, Hash(c)}
	}
	return out
}

// BTPHeader is the header of a BTP block as the network serialises it.
type BTPHeader struct {
	MainHeight             int64
	NetworkID              int64
	UpdateNumber           int64
	PrevNetworkSectionHash []byte
	MessageCount           int64
	MessagesRoot           []byte
}

func encBlob(b []byte) []byte {
	if b == nil {
		return EncNil()
	}
	return EncBytes(b)
}

func (h *BTPHeader) Encode() []byte {
	return EncList(EncInt(h.MainHeight), EncInt(0), EncBytes(Hash([]byte("pc"))), EncList(),
		EncInt(h.NetworkID), EncInt(h.UpdateNumber), EncBytes(h.PrevNetworkSectionHash),
		EncInt(h.MessageCount), encBlob(h.MessagesRoot), EncNil())
}

// DecodeBTPHeader reads a header.
func DecodeBTPHeader(b []byte) (*BTPHeader, error) {
	it, err := ParseRLP(b)
	if err != nil {
		return nil, err
	}
	fs, err := it.Seq(10)
	if err != nil {
		return nil, err
	}
	h := &BTPHeader{}
	for _, x := range []struct {
		i int
		p *int64
	}{{0, &h.MainHeight}, {4, &h.NetworkID}, {5, &h.UpdateNumber}, {7, &h.MessageCount}} {
		if *x.p, err = fs[x.i].Int(); err != nil {
			return nil, err
		}
	}
	h.PrevNetworkSectionHash, err = fs[6].Blob()
	if err != nil {
		return nil, err
	}
	h.MessagesRoot, err = fs[8].Blob()
	return h, err
}

// DecodeBlockUpdate splits a block update.
func DecodeBlockUpdate(b []byte) (header, proof []byte, err error) {
	it, err := ParseRLP(b)
	if err != nil {
		return nil, nil, err
	}
	fs, err := it.Seq(2)
	if err != nil {
		return nil, nil, err
	}
	if header, err = fs[0].Blob(); err != nil {
		return nil, nil, err
	}
	proof, err = fs[1].Blob()
	return header, proof, err
}

// BTPBlock is one block of the source network.
type BTPBlock struct {
	Height  int64
	FirstSN int64
	Msgs    [][]byte
	Header  []byte
	Proof   []byte
	Root    []byte
}

// IconSource is a source network that publishes BTP blocks.
type IconSource struct {
	*Node
	NID         int64
	StartHeight int64
	Offset      int64
	Src, Dst    string
	SrcAccount  string

	mtx    sync.Mutex
	cond   *sync.Cond
	blocks []*BTPBlock
	closed bool
	// Requests are the monitor requests that arrived.
	Requests []map[string]string
	// Fail may refuse a call.
	Fail func(c *Call) *RPCError
	// Bad collects requests the network does not understand.
	Bad []string
}

func NewIconSource(nid, start, offset int64) *IconSource {
	s := &IconSource{Node: NewNode(), NID: nid, StartHeight: start, Offset: offset}
	s.cond = sync.NewCond(&s.mtx)
	s.Handle = s.handle
	s.WS = s.ws
	return s
}

// Publish appends a block; the height must grow.
func (s *IconSource) Publish(height, firstSN int64, flag int64, msgs [][]byte, proof []byte) *BTPBlock {
	root, err := SegRoot(Leaves(msgs))
	if err != nil {
		panic(err)
	}
	h := &BTPHeader{
		MainHeight: height, NetworkID: s.NID,
		UpdateNumber: firstSN<<1 | flag, MessageCount: int64(len(msgs)),
		MessagesRoot: root, PrevNetworkSectionHash: Hash([]byte(fmt.Sprint(height))),
	}
	hb := h.Encode()
	b := &BTPBlock{Height: height, FirstSN: firstSN, Msgs: msgs, Header: hb, Proof: proof, Root: root}
	s.mtx.Lock()
	s.blocks = append(s.blocks, b)
	s.cond.Broadcast()
	s.mtx.Unlock()
	return b
}

func (s *IconSource) Close() {
	s.mtx.Lock()
	s.closed = true
	s.cond.Broadcast()
	s.mtx.Unlock()
	s.Node.CloseClientConnections()
	s.Node.Close()
}

func (s *IconSource) bad(format string, a ...interface{}) *RPCError {
	m := fmt.Sprintf(format, a...)
	s.mtx.Lock()
	s.Bad = append(s.Bad, m)
	s.mtx.Unlock()
	return &RPCError{Code: -32602, Message: m}
}

func hexInt(s string) (int64, error) {
	if !strings.HasPrefix(s, "0x") {
		return 0, fmt.Errorf("not a T_INT: %q", s)
	}
	return strconv.ParseInt(s[2:], 16, 64)
}

func (s *IconSource) block(h int64) *BTPBlock {
	s.mtx.Lock()
	defer s.mtx.Unlock()
	for _, b := range s.blocks {
		if b.Height == h {
			return b
		}
	}
	return nil
}

func (s *IconSource) handle(c *Call) interface{} {
	if s.Fail != nil {
		if e := s.Fail(c); e != nil {
			return e
		}
	}
	switch c.Method {
	case "icx_call":
		var p struct {
			To   string `json:"to"`
			Data struct {
				Method string            `json:"method"`
				Params map[string]string `json:"params"`
			} `json:"data"`
		}
		if err := json.Unmarshal(c.Params, &p); err != nil {
			return s.bad("icx_call %v", err)
		}
		if s.SrcAccount != "" && p.To != s.SrcAccount {
			return s.bad("icx_call to %s", p.To)
		}
		if p.Data.Params["_link"] != s.Dst {
			return s.bad("icx_call %s for link %q", p.Data.Method, p.Data.Params["_link"])
		}
		switch p.Data.Method {
		case "getBTPLinkNetworkId":
			return fmt.Sprintf("0x%x", s.NID)
		case "getBTPLinkOffset":
			if s.Offset < 0 {
				return fmt.Sprintf("-0x%x", -s.Offset)
			}
			return fmt.Sprintf("0x%x", s.Offset)
		}
		return s.bad("icx_call %s", p.Data.Method)
	case "btp_getNetworkInfo":
		var p map[string]string
		_ = json.Unmarshal(c.Params, &p)
		if id, err := hexInt(p["id"]); err != nil || id != s.NID {
			return s.bad("btp_getNetworkInfo %v", p)
		}
		return map[string]string{"startHeight": fmt.Sprintf("0x%x", s.StartHeight), "networkID": p["id"], "networkName": "x"}
	case "btp_getHeader", "btp_getProof", "btp_getMessages":
		var p map[string]string
		_ = json.Unmarshal(c.Params, &p)
		h, err := hexInt(p["height"])
		if err != nil {
			return s.bad("%s %v", c.Method, p)
		}
		id, err := hexInt(p["networkID"])
		if err != nil || id != s.NID {
			return s.bad("%s %v", c.Method, p)
		}
		b := s.block(h)
		if b == nil {
			return s.bad("%s for height %d without a block", c.Method, h)
		}
		switch c.Method {
		case "btp_getHeader":
			return base64.StdEncoding.EncodeToString(b.Header)
		case "btp_getProof":
			return base64.StdEncoding.EncodeToString(b.Proof)
		}
		out := make([]string, len(b.Msgs))
		for i, m := range b.Msgs {
			out[i] = base64.StdEncoding.EncodeToString(m)
		}
		return out
	}
	return s.bad("method %s", c.Method)
}

func (s *IconSource) ws(path string, conn *websocket.Conn) {
	var req map[string]string
	if err := conn.ReadJSON(&req); err != nil {
		return
	}
	h, err := hexInt(req["height"])
	id, err2 := hexInt(req["networkID"])
	s.mtx.Lock()
	s.Requests = append(s.Requests, req)
	s.mtx.Unlock()
	if err != nil || err2 != nil || id != s.NID || !strings.HasSuffix(path, "/btp") {
		_ = s.bad("monitor %s %v", path, req)
		_ = conn.WriteJSON(map[string]interface{}{"code": 1, "message": "bad"})
		return
	}
	_ = conn.WriteJSON(map[string]interface{}{"code": 0})
	next := 0
	for {
		s.mtx.Lock()
		for next >= len(s.blocks) && !s.closed {
			s.cond.Wait()
		}
		if s.closed {
			s.mtx.Unlock()
			return
		}
		b := s.blocks[next]
		s.mtx.Unlock()
		next++
		if b.Height < h {
			continue
		}
		if err := conn.WriteJSON(map[string]string{"header": base64.StdEncoding.EncodeToString(b.Header)}); err != nil {
			return
		}
	}
}

// BTPDest is the destination BMC with a verifier for BTP blocks.
type BTPDest struct {
	mtx      sync.Mutex
	NID      int64
	Height   int64
	Rx       int64
	header   *BTPHeader
	used     int // messages of the current block already taken
	base     int64
	Msgs     [][]byte
	Relays   int
	MaxBytes int
	MaxItems int
	skipped  bool
}

// BTPProof is a message proof as the verifier reads it.
type BTPProof struct {
	Left     []Seg
	Contents [][]byte
	Right    []Seg
}

func decodeSegs(it *Item) ([]Seg, error) {
	xs, err := it.Seq(-1)
	if err != nil {
		return nil, err
	}
	var out []Seg
	for _, x := range xs {
		fs, err := x.Seq(2)
		if err != nil {
			return nil, err
		}
		n, err := fs[0].Int()
		if err != nil {
			return nil, err
		}
		v, err := fs[1].Blob()
		if err != nil {
			return nil, err
		}
		out = append(out, Seg{int(n), v})
	}
	return out, nil
}

// DecodeBTPProof reads a message proof.
func DecodeBTPProof(b []byte) (*BTPProof, error) {
	it, err := ParseRLP(b)
	if err != nil {
		return nil, err
	}
	fs, err := it.Seq(3)
	if err != nil {
		return nil, err
	}
	p := &BTPProof{}
	if p.Left, err = decodeSegs(fs[0]); err != nil {
		return nil, err
	}
	if p.Right, err = decodeSegs(fs[2]); err != nil {
		return nil, err
	}
	cs, err := fs[1].Seq(-1)
	if err != nil {
		return nil, err
	}
	for _, x := range cs {
		v, err := x.Blob()
		if err != nil {
			return nil, err
		}
		p.Contents = append(p.Contents, v)
	}
	return p, nil
}

// Root gives the root the proof stands for and the leaves before its contents.
func (p *BTPProof) Root() ([]byte, int, error) {
	var segs []Seg
	left := 0
	for _, n := range p.Left {
		segs = append(segs, n)
		left += n.N
	}
	segs = append(segs, Leaves(p.Contents)...)
	segs = append(segs, p.Right...)
	r, err := SegRoot(segs)
	return r, left, err
}

// DecodeItems splits a relay message into its typed items.
func DecodeItems(msg []byte) ([]uint64, [][]byte, error) {
	it, err := ParseRLP(msg)
	if err != nil {
		return nil, nil, err
	}
	fs, err := it.Seq(1)
	if err != nil {
		return nil, nil, err
	}
	xs, err := fs[0].Seq(-1)
	if err != nil {
		return nil, nil, err
	}
	var ts []uint64
	var ps [][]byte
	for _, x := range xs {
		fs, err := x.Seq(2)
		if err != nil {
			return nil, nil, err
		}
		n, err := fs[0].Int()
		if err != nil {
			return nil, nil, err
		}
		v, err := fs[1].Blob()
		if err != nil {
			return nil, nil, err
		}
		ts = append(ts, uint64(n))
		ps = append(ps, v)
	}
	return ts, ps, nil
}

// Enter takes one block update into the state of the verifier.
func (d *BTPDest) enter(payload []byte) error {
	hb, _, err := DecodeBlockUpdate(payload)
	if err != nil {
		return fmt.Errorf("block update: %v", err)
	}
	h, err := DecodeBTPHeader(hb)
	if err != nil {
		return fmt.Errorf("block header: %v", err)
	}
	if h.NetworkID != d.NID {
		return fmt.Errorf("block of network %d", h.NetworkID)
	}
	if h.MainHeight <= d.Height {
		return fmt.Errorf("block %d after %d", h.MainHeight, d.Height)
	}
	if d.header != nil && d.used != int(d.header.MessageCount) {
		d.skipped = true
		return fmt.Errorf("block %d before the %d messages left of %d", h.MainHeight, int(d.header.MessageCount)-d.used, d.Height)
	}
	if h.UpdateNumber>>1 != d.Rx-d.base {
		return fmt.Errorf("block %d starts at message %d, %d messages were received", h.MainHeight, h.UpdateNumber>>1, d.Rx-d.base)
	}
	d.header, d.used, d.Height = h, 0, h.MainHeight
	return nil
}

// NewBTPDest starts after the block at height with rx messages received,
// whose first has serial number base.
func NewBTPDest(nid, height, rx, base int64) *BTPDest {
	return &BTPDest{NID: nid, Height: height, Rx: rx, base: base}
}

func (d *BTPDest) prove(payload []byte) error {
	p, err := DecodeBTPProof(payload)
	if err != nil {
		return fmt.Errorf("message proof: %v", err)
	}
	if d.header == nil {
		return fmt.Errorf("message proof without a block")
	}
	r, left, err := p.Root()
	if err != nil {
		return fmt.Errorf("message proof: %v", err)
	}
	if !bytes.Equal(r, d.header.MessagesRoot) {
		return fmt.Errorf("message proof does not lead to the root of block %d", d.Height)
	}
	if left != d.used {
		return fmt.Errorf("message proof starts behind %d messages of block %d, %d were received", left, d.Height, d.used)
	}
	if len(p.Contents) == 0 {
		return fmt.Errorf("message proof without messages")
	}
	d.used += len(p.Contents)
	d.Rx += int64(len(p.Contents))
	d.Msgs = append(d.Msgs, p.Contents...)
	return nil
}

// Receive takes a relay message, or says why the verifier refuses it.
func (d *BTPDest) Receive(msg []byte) error {
	d.mtx.Lock()
	defer d.mtx.Unlock()
	ts, ps, err := DecodeItems(msg)
	if err != nil {
		return err
	}
	if len(ts) == 0 {
		return fmt.Errorf("empty relay message")
	}
	d.Relays++
	if len(msg) > d.MaxBytes {
		d.MaxBytes = len(msg)
	}
	if len(ts) > d.MaxItems {
		d.MaxItems = len(ts)
	}
	for i := range ts {
		switch ts[i] {
		case 1:
			err = d.enter(ps[i])
		case 2:
			err = d.prove(ps[i])
		default:
			err = fmt.Errorf("item of type %d", ts[i])
		}
		if err != nil {
			return fmt.Errorf("item %d: %v", i, err)
		}
	}
	return nil
}

func (d *BTPDest) State() (int64, int64) {
	d.mtx.Lock()
	defer d.mtx.Unlock()
	return d.Height, d.Rx
}

// Got returns the messages in the order they were received.
func (d *BTPDest) Got() [][]byte {
	d.mtx.Lock()
	defer d.mtx.Unlock()
	return append([][]byte(nil), d.Msgs...)
}

// BridgeDest is a destination BMC with a bridge verifier.
type BridgeDest struct {
	mtx      sync.Mutex
	Next     string
	Height   int64
	Rx       int64
	Msgs     [][]byte
	Heights  []int64
	Relays   int
	MaxBytes int
}

// BridgeEvent is a message in a bridge relay message.
type BridgeEvent struct {
	Next string
	Seq  int64
	Msg  []byte
}

// BridgeReceipt is a receipt in a bridge relay message.
type BridgeReceipt struct {
	Index  int64
	Height int64
}

// DecodeBridge reads a bridge relay message.
func DecodeBridge(msg []byte) ([]BridgeReceipt, [][]BridgeEvent, error) {
	it, err := ParseRLP(msg)
	if err != nil {
		return nil, nil, err
	}
	fs, err := it.Seq(1)
	if err != nil {
		return nil, nil, err
	}
	xs, err := fs[0].Seq(-1)
	if err != nil {
		return nil, nil, err
	}
	var rs []BridgeReceipt
	var es [][]BridgeEvent
	for _, x := range xs {
		rb, err := x.Blob()
		if err != nil {
			return nil, nil, err
		}
		ri, err := ParseRLP(rb)
		if err != nil {
			return nil, nil, err
		}
		fs, err := ri.Seq(3)
		if err != nil {
			return nil, nil, err
		}
		var r BridgeReceipt
		if r.Index, err = fs[0].Int(); err != nil {
			return nil, nil, err
		}
		eb, err := fs[1].Blob()
		if err != nil {
			return nil, nil, err
		}
		if r.Height, err = fs[2].Int(); err != nil {
			return nil, nil, err
		}
		ei, err := ParseRLP(eb)
		if err != nil {
			return nil, nil, err
		}
		evs, err := ei.Seq(-1)
		if err != nil {
			return nil, nil, err
		}
		var e []BridgeEvent
		for _, v := range evs {
			fs, err := v.Seq(3)
			if err != nil {
				return nil, nil, err
			}
			n, err := fs[0].Blob()
			if err != nil {
				return nil, nil, err
			}
			sq, err := fs[1].Int()
			if err != nil {
				return nil, nil, err
			}
			m, err := fs[2].Blob()
			if err != nil {
				return nil, nil, err
			}
			e = append(e, BridgeEvent{string(n), sq, m})
		}
		rs = append(rs, r)
		es = append(es, e)
	}
	return rs, es, nil
}

func (d *BridgeDest) Receive(msg []byte) error {
	d.mtx.Lock()
	defer d.mtx.Unlock()
	rs, es, err := DecodeBridge(msg)
	if err != nil {
		return err
	}
	d.Relays++
	if len(msg) > d.MaxBytes {
		d.MaxBytes = len(msg)
	}
	n := 0
	for i, r := range rs {
		if int64(r.Height) < d.Height {
			return fmt.Errorf("receipt of height %d after %d", r.Height, d.Height)
		}
		for _, e := range es[i] {
			n++
			if e.Next != d.Next {
				return fmt.Errorf("message for %q", e.Next)
			}
			if int64(e.Seq) != d.Rx+1 {
				return fmt.Errorf("message %d after %d", e.Seq, d.Rx)
			}
			d.Rx++
			d.Msgs = append(d.Msgs, e.Msg)
			d.Heights = append(d.Heights, int64(r.Height))
		}
		d.Height = int64(r.Height)
	}
	if n == 0 {
		return fmt.Errorf("relay message without messages")
	}
	return nil
}

func (d *BridgeDest) State() (int64, int64) {
	d.mtx.Lock()
	defer d.mtx.Unlock()
	return d.Height, d.Rx
}

func (d *BridgeDest) Got() [][]byte {
	d.mtx.Lock()
	defer d.mtx.Unlock()
	return append([][]byte(nil), d.Msgs...)
}

// MidBlock says whether the last block has messages left.
func (d *BTPDest) MidBlock() bool {
	d.mtx.Lock()
	defer d.mtx.Unlock()
	return d.header != nil && d.used != int(d.header.MessageCount)
}

// OpensBlock says whether a relay message starts with a block update.
func (d *BTPDest) OpensBlock(msg []byte) bool {
	ts, _, err := DecodeItems(msg)
	return err == nil && len(ts) > 0 && ts[0] == 1
}

// Stand puts the destination into the block at height with some of its
// messages taken.
func (d *BTPDest) Stand(s *IconSource, height int64, taken int) error {
	b := s.block(height)
	h, err := DecodeBTPHeader(b.Header)
	if err != nil {
		return err
	}
	d.header, d.used, d.Height = h, taken, height
	d.Rx += int64(taken)
	return nil
}

// LeftOut says whether a block was refused because messages of the one before
// it are missing.
func (d *BTPDest) LeftOut() bool {
	d.mtx.Lock()
	defer d.mtx.Unlock()
	return d.skipped
}
