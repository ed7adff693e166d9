package fake

import (
	"encoding/json"
	"fmt"
	"math/big"
	"strings"
	"sync"
	"time"

	"github.com/ethereum/go-ethereum/accounts/abi"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/gorilla/websocket"
)

// BMCABI is the part of the contract a relay uses, written from its source.
const BMCABI = `[
{"type":"event","name":"Message","anonymous":false,"inputs":[{"name":"_next","type":"string","indexed":false},{"name":"_seq","type":"uint256","indexed":false},{"name":"_msg","type":"bytes","indexed":false}]},
{"type":"function","name":"handleRelayMessage","stateMutability":"nonpayable","inputs":[{"name":"_prev","type":"string"},{"name":"_msg","type":"bytes"}],"outputs":[]},
{"type":"function","name":"getStatus","stateMutability":"view","inputs":[{"name":"_link","type":"string"}],"outputs":[{"name":"_linkStats","type":"tuple","components":[
 {"name":"rxSeq","type":"uint256"},{"name":"txSeq","type":"uint256"},
 {"name":"verifier","type":"tuple","components":[{"name":"height","type":"uint256"},{"name":"extra","type":"bytes"}]},
 {"name":"currentHeight","type":"uint256"}]}]}
]`

// BMC is the parsed contract interface.
var BMC = func() abi.ABI {
	a, err := abi.JSON(strings.NewReader(BMCABI))
	if err != nil {
		panic(err)
	}
	return a
}()

// EthEvent is a log of an Ethereum block.
type EthEvent struct {
	Tx    uint
	Addr  common.Address
	Topic common.Hash
	Data  []byte
}

// MessageLog encodes the Message event.
func MessageLog(next string, seq int64, msg []byte) []byte {
	b, err := BMC.Events["Message"].Inputs.Pack(next, big.NewInt(seq), msg)
	if err != nil {
		panic(err)
	}
	return b
}

type ethBlock struct {
	header *types.Header
	events []EthEvent
}

// EthNode is an Ethereum JSON-RPC node with a growing chain.
type EthNode struct {
	*Node
	ChainID int64

	mtx    sync.Mutex
	cond   *sync.Cond
	blocks []*ethBlock // by number from first
	first  int64
	closed bool
	subs   int
	fail   func(c *Call) *RPCError
	// Call answers eth_call; Send takes a raw transaction.
	Call func(to common.Address, data []byte) (hexutil.Bytes, *RPCError)
	Send func(tx *types.Transaction) *RPCError
	// Tx and Receipt answer by transaction hash; nil is "not found".
	Tx      func(h common.Hash) interface{}
	Receipt func(h common.Hash) interface{}
	Nonce   uint64
	Bad     []string
	// Delay holds an answer back.
	Delay func(c *Call) time.Duration
}

func NewEthNode(chainID, first int64) *EthNode {
	n := &EthNode{Node: NewNode(), ChainID: chainID, first: first}
	n.cond = sync.NewCond(&n.mtx)
	n.Node.Handle = func(c *Call) interface{} {
		if e := n.refused(c); e != nil {
			return ethErr(c, e)
		}
		r := n.answer(c.Method, c.Params)
		if e, ok := r.(*RPCError); ok {
			return ethErr(c, e)
		}
		return r
	}
	n.Node.WS = n.ws
	return n
}

func ethErr(c *Call, e *RPCError) *Raw {
	var req struct {
		ID json.RawMessage `json:"id"`
	}
	_ = json.Unmarshal(c.Raw, &req)
	b, _ := json.Marshal(map[string]interface{}{"jsonrpc": "2.0", "id": req.ID, "error": e})
	return &Raw{Status: 200, Type: "application/json", Body: b}
}

// SetFail installs a function that may refuse a call; calls to it are serialised.
func (n *EthNode) SetFail(f func(c *Call) *RPCError) {
	n.mtx.Lock()
	defer n.mtx.Unlock()
	n.fail = f
}

func (n *EthNode) refused(c *Call) *RPCError {
	if n.Delay != nil {
		time.Sleep(n.Delay(c))
	}
	n.mtx.Lock()
	defer n.mtx.Unlock()
	if n.fail == nil {
		return nil
	}
	return n.fail(c)
}

// Complaints are the requests the node could not make sense of.
func (n *EthNode) Complaints() []string {
	n.mtx.Lock()
	defer n.mtx.Unlock()
	return append([]string(nil), n.Bad...)
}

// BlockArg is the block number a call starts with, or -1.
func BlockArg(c *Call) int64 {
	var ps []json.RawMessage
	var s string
	if json.Unmarshal(c.Params, &ps) != nil || len(ps) == 0 || json.Unmarshal(ps[0], &s) != nil {
		return -1
	}
	v, err := hexutil.DecodeBig(s)
	if err != nil {
		return -1
	}
	return v.Int64()
}

// Mine appends a block.
func (n *EthNode) Mine(events []EthEvent) int64 {
	n.mtx.Lock()
	defer n.mtx.Unlock()
	num := n.first + int64(len(n.blocks))
	h := &types.Header{Number: big.NewInt(num), Difficulty: big.NewInt(2), GasLimit: 1, Time: uint64(num), Extra: []byte{}}
	if len(n.blocks) > 0 {
		h.ParentHash = n.blocks[len(n.blocks)-1].header.Hash()
	}
	n.blocks = append(n.blocks, &ethBlock{h, events})
	n.cond.Broadcast()
	return num
}

// Top is the number of the last block.
func (n *EthNode) Top() int64 {
	n.mtx.Lock()
	defer n.mtx.Unlock()
	return n.first + int64(len(n.blocks)) - 1
}

func (n *EthNode) Close() {
	n.mtx.Lock()
	n.closed = true
	n.cond.Broadcast()
	n.mtx.Unlock()
	n.Node.CloseClientConnections()
	n.Node.Close()
}

// Subscribed says how often new heads were subscribed to.
func (n *EthNode) Subscribed() int {
	n.mtx.Lock()
	defer n.mtx.Unlock()
	return n.subs
}

func (n *EthNode) bad(format string, a ...interface{}) *RPCError {
	m := fmt.Sprintf(format, a...)
	n.mtx.Lock()
	n.Bad = append(n.Bad, m)
	n.mtx.Unlock()
	return &RPCError{Code: -32602, Message: m}
}

func (n *EthNode) answer(method string, params json.RawMessage) interface{} {
	var ps []json.RawMessage
	if len(params) > 0 {
		if err := json.Unmarshal(params, &ps); err != nil {
			return n.bad("%s: %v", method, err)
		}
	}
	str := func(i int) string {
		var s string
		if i < len(ps) {
			_ = json.Unmarshal(ps[i], &s)
		}
		return s
	}
	switch method {
	case "eth_chainId":
		return hexutil.EncodeUint64(uint64(n.ChainID))
	case "eth_blockNumber":
		return hexutil.EncodeUint64(uint64(n.Top()))
	case "eth_gasPrice":
		return "0x3b9aca00"
	case "eth_getTransactionCount":
		return hexutil.EncodeUint64(n.Nonce)
	case "eth_getBlockByNumber":
		num, err := hexutil.DecodeBig(str(0))
		if str(0) == "latest" {
			num, err = big.NewInt(n.Top()), nil
		}
		if err != nil {
			return n.bad("eth_getBlockByNumber %s", params)
		}
		n.mtx.Lock()
		defer n.mtx.Unlock()
		i := num.Int64() - n.first
		if i < 0 || i >= int64(len(n.blocks)) {
			return nil
		}
		return n.blocks[i].header
	case "eth_getLogs":
		var q struct {
			BlockHash common.Hash      `json:"blockHash"`
			Address   []common.Address `json:"address"`
			Topics    [][]common.Hash  `json:"topics"`
		}
		if len(ps) != 1 {
			return n.bad("eth_getLogs %s", params)
		}
		if err := json.Unmarshal(ps[0], &q); err != nil {
			return n.bad("eth_getLogs %s: %v", params, err)
		}
		n.mtx.Lock()
		defer n.mtx.Unlock()
		for _, b := range n.blocks {
			if b.header.Hash() != q.BlockHash {
				continue
			}
			out := []*types.Log{}
			for i, e := range b.events {
				ok := len(q.Address) == 0
				for _, a := range q.Address {
					ok = ok || a == e.Addr
				}
				if ok && len(q.Topics) > 0 && len(q.Topics[0]) > 0 {
					ok = false
					for _, tp := range q.Topics[0] {
						ok = ok || tp == e.Topic
					}
				}
				if !ok {
					continue
				}
				out = append(out, &types.Log{Address: e.Addr, Topics: []common.Hash{e.Topic}, Data: e.Data,
					BlockNumber: b.header.Number.Uint64(), TxHash: common.BigToHash(big.NewInt(int64(e.Tx) + 1)),
					TxIndex: e.Tx, BlockHash: q.BlockHash, Index: uint(i)})
			}
			return out
		}
		return &RPCError{Code: -32000, Message: "unknown block"}
	case "eth_call":
		var q struct {
			To    common.Address `json:"to"`
			Data  hexutil.Bytes  `json:"data"`
			Input hexutil.Bytes  `json:"input"`
		}
		if len(ps) == 0 {
			return n.bad("eth_call %s", params)
		}
		if err := json.Unmarshal(ps[0], &q); err != nil {
			return n.bad("eth_call %s", params)
		}
		if len(q.Data) == 0 {
			q.Data = q.Input
		}
		if n.Call == nil {
			return n.bad("eth_call")
		}
		r, e := n.Call(q.To, q.Data)
		if e != nil {
			return e
		}
		return r
	case "eth_getCode":
		return "0x01"
	case "eth_sendRawTransaction":
		raw, err := hexutil.Decode(str(0))
		if err != nil {
			return n.bad("eth_sendRawTransaction %v", err)
		}
		tx := new(types.Transaction)
		if err := tx.UnmarshalBinary(raw); err != nil {
			return n.bad("eth_sendRawTransaction %v", err)
		}
		if n.Send == nil {
			return n.bad("eth_sendRawTransaction")
		}
		if e := n.Send(tx); e != nil {
			return e
		}
		return tx.Hash()
	case "eth_getTransactionByHash", "eth_getTransactionReceipt":
		h := common.HexToHash(str(0))
		f := n.Tx
		if method == "eth_getTransactionReceipt" {
			f = n.Receipt
		}
		if f == nil {
			return nil
		}
		return f(h)
	}
	return n.bad("method %s", method)
}

// ws serves JSON-RPC over a websocket, with subscriptions to new heads.
func (n *EthNode) ws(path string, conn *websocket.Conn) {
	var wmtx sync.Mutex
	for {
		var req struct {
			ID     json.RawMessage `json:"id"`
			Method string          `json:"method"`
			Params json.RawMessage `json:"params"`
		}
		if err := conn.ReadJSON(&req); err != nil {
			return
		}
		out := map[string]interface{}{"jsonrpc": "2.0", "id": req.ID}
		if req.Method == "eth_subscribe" {
			n.mtx.Lock()
			n.subs++
			next := len(n.blocks)
			n.mtx.Unlock()
			out["result"] = "0x1"
			wmtx.Lock()
			_ = conn.WriteJSON(out)
			wmtx.Unlock()
			go func() {
				for {
					n.mtx.Lock()
					for next >= len(n.blocks) && !n.closed {
						n.cond.Wait()
					}
					if n.closed {
						n.mtx.Unlock()
						_ = conn.Close()
						return
					}
					h := n.blocks[next].header
					next++
					n.mtx.Unlock()
					wmtx.Lock()
					err := conn.WriteJSON(map[string]interface{}{"jsonrpc": "2.0", "method": "eth_subscription",
						"params": map[string]interface{}{"subscription": "0x1", "result": h}})
					wmtx.Unlock()
					if err != nil {
						return
					}
				}
			}()
			continue
		}
		c := &Call{Method: req.Method, Params: req.Params}
		var r interface{}
		if e := n.refused(c); e != nil {
			r = e
		}
		if r == nil {
			r = n.answer(req.Method, req.Params)
		}
		if e, ok := r.(*RPCError); ok {
			out["error"] = e
		} else {
			out["result"] = r
		}
		wmtx.Lock()
		_ = conn.WriteJSON(out)
		wmtx.Unlock()
	}
}

// EthDest is a destination BMC that takes relay messages of an Ethereum bridge.
type EthDest struct {
	BridgeDest
	Indexes []int64
}

// DecodeEthBridge reads a relay message of the Ethereum bridge: the receipts
// are in the dialect of the network, the events in canonical RLP.
func DecodeEthBridge(msg []byte) ([]BridgeReceipt, [][]BridgeEvent, error) {
	it, err := ParseRLP(msg)
	if err != nil {
		return nil, nil, err
	}
	fs, err := it.Seq(1)
	if err != nil {
		return nil, nil, err
	}
	xs, err := fs[0].Seq(-1)
	if err != nil {
		return nil, nil, err
	}
	var rs []BridgeReceipt
	var es [][]BridgeEvent
	for _, x := range xs {
		rb, err := x.Blob()
		if err != nil {
			return nil, nil, err
		}
		ri, err := ParseRLP(rb)
		if err != nil {
			return nil, nil, err
		}
		fs, err := ri.Seq(3)
		if err != nil {
			return nil, nil, err
		}
		var r BridgeReceipt
		if r.Index, err = fs[0].Int(); err != nil {
			return nil, nil, err
		}
		eb, err := fs[1].Blob()
		if err != nil {
			return nil, nil, err
		}
		if r.Height, err = fs[2].Int(); err != nil {
			return nil, nil, err
		}
		ei, err := ParseRLP(eb)
		if err != nil {
			return nil, nil, err
		}
		evs, err := ei.Seq(-1)
		if err != nil {
			return nil, nil, err
		}
		var e []BridgeEvent
		for _, v := range evs {
			fs, err := v.Seq(3)
			if err != nil {
				return nil, nil, err
			}
			nx, err := fs[0].Blob()
			if err != nil {
				return nil, nil, err
			}
			sq, err := fs[1].Blob()
			if err != nil || len(sq) > 8 || len(sq) > 0 && sq[0] == 0 {
				return nil, nil, fmt.Errorf("sequence %x", sq)
			}
			m, err := fs[2].Blob()
			if err != nil {
				return nil, nil, err
			}
			e = append(e, BridgeEvent{string(nx), new(big.Int).SetBytes(sq).Int64(), m})
		}
		rs = append(rs, r)
		es = append(es, e)
	}
	return rs, es, nil
}

func (d *EthDest) Receive(msg []byte) error {
	d.mtx.Lock()
	defer d.mtx.Unlock()
	rs, es, err := DecodeEthBridge(msg)
	if err != nil {
		return err
	}
	n := 0
	for i, r := range rs {
		if r.Height < d.Height {
			return fmt.Errorf("receipt of height %d after %d", r.Height, d.Height)
		}
		for _, e := range es[i] {
			n++
			if e.Next != d.Next {
				return fmt.Errorf("message for %q", e.Next)
			}
			if e.Seq != d.Rx+1 {
				return fmt.Errorf("message %d after %d", e.Seq, d.Rx)
			}
			d.Rx++
			d.Msgs = append(d.Msgs, e.Msg)
			d.Heights = append(d.Heights, r.Height)
			d.Indexes = append(d.Indexes, r.Index)
		}
		d.Height = r.Height
	}
	if n == 0 {
		return fmt.Errorf("relay message without messages")
	}
	d.Relays++
	return nil
}
