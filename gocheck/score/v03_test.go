package score

import (
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"math/big"
	"strings"
	"testing"

	ethcrypto "github.com/ethereum/go-ethereum/crypto"
	"golang.org/x/crypto/sha3"
	"pgregory.net/rapid"

	"verif/gocheck/fake"
	"verif/gocheck/jvm"
	"verif/gocheck/pbt"
)

func sha(parts ...[]byte) []byte {
	h := sha3.New256()
	for _, p := range parts {
		h.Write(p)
	}
	return h.Sum(nil)
}

func nibbles(b []byte) []byte {
	var out []byte
	for _, x := range b {
		out = append(out, x>>4, x&15)
	}
	return out
}

type kv struct{ nib, val []byte }

func hp(nib []byte, leaf bool) []byte {
	f := byte(0)
	if leaf {
		f = 2
	}
	out := []byte{f << 4}
	if len(nib)%2 == 1 {
		out = []byte{(f+1)<<4 | nib[0]}
		nib = nib[1:]
	}
	for i := 0; i < len(nib); i += 2 {
		out = append(out, nib[i]<<4|nib[i+1])
	}
	return out
}

// trie gives the serialised node and the proof of the wanted key; every value is long enough for no node to be inlined.
func trie(kvs []kv, depth int, want []byte) (node []byte, proof [][]byte) {
	on := func(p [][]byte) {
		if p != nil {
			proof = append([][]byte{node}, p...)
		}
	}
	if len(kvs) == 1 {
		node = fake.EncList(fake.EncBytes(hp(kvs[0].nib[depth:], true)), fake.EncBytes(kvs[0].val))
		if bytes.Equal(kvs[0].nib, want) {
			proof = [][]byte{node}
		}
		return
	}
	common := 0
	for {
		same := true
		for _, k := range kvs {
			same = same && k.nib[depth+common] == kvs[0].nib[depth+common]
		}
		if !same {
			break
		}
		common++
	}
	if common > 0 {
		child, p := trie(kvs, depth+common, want)
		node = fake.EncList(fake.EncBytes(hp(kvs[0].nib[depth:depth+common], false)), fake.EncBytes(sha(child)))
		on(p)
		return
	}
	var items [][]byte
	var below [][]byte
	for x := byte(0); x < 16; x++ {
		var sub []kv
		for _, k := range kvs {
			if k.nib[depth] == x {
				sub = append(sub, k)
			}
		}
		if len(sub) == 0 {
			items = append(items, fake.EncBytes(nil))
			continue
		}
		child, p := trie(sub, depth+1, want)
		items = append(items, fake.EncBytes(sha(child)))
		if p != nil {
			below = p
		}
	}
	node = fake.EncList(append(items, fake.EncBytes(nil))...)
	on(below)
	return
}

// list is the trie of a list as ICON stores it: the index in RLP is the key.
func trieKVs(vals [][]byte) []kv {
	var out []kv
	for i, v := range vals {
		out = append(out, kv{nibbles(fake.EncInt(int64(i))), v})
	}
	return out
}
func trieRoot(vals [][]byte) []byte {
	if len(vals) == 0 {
		return nil
	}
	n, _ := trie(trieKVs(vals), 0, nil)
	return sha(n)
}
func trieProof(vals [][]byte, i int) [][]byte {
	_, p := trie(trieKVs(vals), 0, nibbles(fake.EncInt(int64(i))))
	return p
}

func hxAddr(n int) jvm.Addr {
	p := ethcrypto.FromECDSAPub(&key(n).PublicKey)
	return jvm.Addr("hx" + hex.EncodeToString(sha(p[1:])[12:]))
}

func addrBytes(a jvm.Addr) []byte {
	b, err := hex.DecodeString(string(a[2:]))
	if err != nil {
		panic(err)
	}
	p := byte(0)
	if strings.HasPrefix(string(a), "cx") {
		p = 1
	}
	return append([]byte{p}, b...)
}

func validatorsBytes(vs []int) []byte {
	var l [][]byte
	for _, v := range vs {
		l = append(l, fake.EncBytes(addrBytes(hxAddr(v))))
	}
	return fake.EncList(l...)
}

type iconEvent struct {
	addr jvm.Addr
	sig  string
	next string
	seq  int64
	msg  []byte
}

func (e *iconEvent) encode() []byte {
	seq := new(big.Int).SetInt64(e.seq)
	sb := seq.Bytes()
	if len(sb) == 0 || sb[0] >= 0x80 {
		sb = append([]byte{0}, sb...)
	}
	return fake.EncList(fake.EncBytes(addrBytes(e.addr)),
		fake.EncList(fake.EncBytes([]byte(e.sig)), fake.EncBytes([]byte(e.next)), fake.EncBytes(sb)), fake.EncList(fake.EncBytes(e.msg)))
}

type iconBlock struct {
	height   int64
	ts       int64
	prev     []byte
	signers  []int
	next     []int
	receipts [][]*iconEvent // nil for a block without a result
	fork     []byte         // makes a forged block differ
}

func (b *iconBlock) eventBytes(r int) [][]byte {
	var out [][]byte
	for _, e := range b.receipts[r] {
		out = append(out, e.encode())
	}
	return out
}

func (b *iconBlock) receiptBytes() [][]byte {
	var out [][]byte
	for i := range b.receipts {
		out = append(out, fake.EncList(fake.EncInt(0), fake.EncBytes(addrBytes(jvm.CX(i+1))), fake.EncBytes([]byte{1, byte(i)}), fake.EncBytes([]byte{2}),
			fake.EncBytes([]byte{3}), fake.EncNil(), fake.EncList(), fake.EncNil(), blob(trieRoot(b.eventBytes(i)))))
	}
	return out
}

func (b *iconBlock) header() []byte {
	res := fake.EncNil()
	if b.receipts != nil {
		res = fake.EncBytes(fake.EncList(fake.EncBytes(sha([]byte("state"))), fake.EncNil(), blob(trieRoot(b.receiptBytes()))))
	}
	return fake.EncList(fake.EncInt(2), fake.EncInt(b.height), fake.EncInt(b.ts), fake.EncBytes(addrBytes(hxAddr(b.signers[0]))), blob(b.prev),
		fake.EncBytes(sha([]byte("votes"))), fake.EncBytes(sha(validatorsBytes(b.next))), fake.EncNil(), blob(b.fork), fake.EncBytes(nil), res)
}

func (b *iconBlock) hash() []byte { return sha(b.header()) }

type vote struct {
	ts  int64
	sig []byte
}

type votesSet struct {
	round int64
	count int64
	hash  []byte
	items []vote
}

func (v *votesSet) sign(k int, height int64, blockID []byte, ts int64) {
	h := sha(fake.EncList(fake.EncInt(height), fake.EncInt(v.round), fake.EncInt(1), fake.EncBytes(blockID),
		fake.EncList(fake.EncInt(v.count), fake.EncBytes(v.hash)), fake.EncInt(ts)))
	v.items = append(v.items, vote{ts, sign(k, h)})
}

func (v *votesSet) encode() []byte {
	var l [][]byte
	for _, i := range v.items {
		l = append(l, fake.EncList(fake.EncInt(i.ts), fake.EncBytes(i.sig)))
	}
	return fake.EncList(fake.EncInt(v.round), fake.EncList(fake.EncInt(v.count), fake.EncBytes(v.hash)), fake.EncList(l...))
}

func iconUpdate(header []byte, votes []byte, next []byte) []byte {
	return fake.EncBytes(fake.EncList(fake.EncBytes(header), fake.EncBytes(votes), blob(next)))
}

func iconRelay(updates [][]byte, proof []byte, receipts [][]byte) []byte {
	u := fake.EncNil()
	if updates != nil || python {
		u = fake.EncList(updates...)
	}
	return fake.EncList(u, blob(proof), fake.EncList(receipts...))
}

func mptList(p [][]byte) []byte {
	var l [][]byte
	for _, x := range p {
		l = append(l, fake.EncBytes(x))
	}
	return fake.EncBytes(fake.EncList(l...))
}

// receiptProof proves events of a receipt.
func (b *iconBlock) receiptProof(r int, events []int) []byte {
	var l [][]byte
	for _, e := range events {
		l = append(l, fake.EncList(fake.EncInt(int64(e)), mptList(trieProof(b.eventBytes(r), e))))
	}
	return fake.EncBytes(fake.EncList(fake.EncInt(int64(r)), mptList(trieProof(b.receiptBytes(), r)), fake.EncList(l...)))
}

// witness of a leaf in the accumulator over the hashes.
func witness(leaves [][]byte, idx int) [][]byte {
	n := len(leaves)
	start := 0
	for bit := 1 << 20; bit > 0; bit >>= 1 {
		if n&bit == 0 {
			continue
		}
		if idx < start+bit {
			level, i := leaves[start:start+bit], idx-start
			var out [][]byte
			for len(level) > 1 {
				out = append(out, level[i^1])
				var up [][]byte
				for k := 0; k < len(level); k += 2 {
					up = append(up, sha(level[k], level[k+1]))
				}
				level, i = up, i/2
			}
			return out
		}
		start += bit
	}
	return nil
}

type iconMsg struct{ block, receipt, event int }

type iconModel struct {
	lastHeight int64
	t          *rapid.T
	net        string
	own        string
	src        jvm.Addr // the BMC of the source
	base       int64
	vs         []int
	chain      []*iconBlock
	top        int   // verified blocks
	rx         int64 // messages taken
	sent       int64 // messages on the chain
	where      []iconMsg
	rnd        int
}

func (m *iconModel) last() *iconBlock {
	if len(m.chain) == 0 {
		return nil
	}
	return m.chain[len(m.chain)-1]
}

func (m *iconModel) extend(t *rapid.T) {
	b := &iconBlock{height: m.base + int64(len(m.chain)) + 1, ts: int64(len(m.chain)) * 1000, signers: m.vs, next: m.vs}
	if l := m.last(); l != nil {
		b.signers, b.next, b.prev = l.next, l.next, l.hash()
	}
	if pct(t, "newvs", 20) {
		b.next = drawValidators(t)
	}
	if !pct(t, "noresult", 20) {
		b.receipts = [][]*iconEvent{}
		for i := rapid.IntRange(1, 3).Draw(t, "receipts"); i > 0; i-- {
			var evs []*iconEvent
			for k := rapid.IntRange(1, 3).Draw(t, "events"); k > 0; k-- {
				e := &iconEvent{addr: m.src, sig: "Message(str,int,bytes)", next: m.own, msg: rapid.SliceOfN(rapid.Byte(), 1, 12).Draw(t, "msg")}
				switch pbt.Pick(t, "decoy", 10) {
				case 0:
					e.addr, e.seq = jvm.CX(0x999), m.sent+1
				case 1:
					e.sig, e.seq = oneOf(t, "sig", "MessageX(str,int,bytes)", "Mess(str,int,bytes)"), m.sent+1
				case 2:
					e.next, e.seq = m.own+"1", m.sent+1
				default:
					m.sent++
					e.seq = m.sent
					m.where = append(m.where, iconMsg{len(m.chain), len(b.receipts), len(evs)})
				}
				evs = append(evs, e)
			}
			b.receipts = append(b.receipts, evs)
		}
	}
	m.chain = append(m.chain, b)
}

func (m *iconModel) msg(seq int64) []byte {
	w := m.where[seq-1]
	return m.chain[w.block].receipts[w.receipt][w.event].msg
}

func (m *iconModel) votes(t *rapid.T, b *iconBlock, ks []int) *votesSet {
	v := &votesSet{round: rapid.Int64Range(0, 2).Draw(t, "round"), count: 1, hash: sha([]byte("part"))}
	for _, k := range ks {
		v.sign(k, b.height, b.hash(), b.ts+int64(k))
	}
	return v
}

func (m *iconModel) update(t *rapid.T, b *iconBlock) []byte {
	n := quorum(len(b.signers))
	if pct(t, "allsign", 40) {
		n = len(b.signers)
	}
	var next []byte
	if !bytes.Equal(validatorsBytes(b.signers), validatorsBytes(b.next)) || pct(t, "sendnext", 10) {
		next = validatorsBytes(b.next)
	}
	return iconUpdate(b.header(), m.votes(t, b, pick(t, b.signers, n)).encode(), next)
}

func (m *iconModel) blockProof(i, at int) []byte {
	var leaves [][]byte
	for _, b := range m.chain[:at] {
		leaves = append(leaves, b.hash())
	}
	var w [][]byte
	for _, x := range witness(leaves, i) {
		w = append(w, fake.EncBytes(x))
	}
	return fake.EncList(fake.EncBytes(m.chain[i].header()), fake.EncList(fake.EncInt(m.base+int64(at)), fake.EncList(w...)))
}

// run is the proofs of the next messages that lie in a block, at most n of them, and of some events that are no message.
func (m *iconModel) run(t *rapid.T, block, n int) (proofs [][]byte, got [][]byte) {
	b := m.chain[block]
	byReceipt := map[int][]int{}
	for s := m.rx + 1; s <= m.sent && len(got) < n && m.where[s-1].block == block; s++ {
		w := m.where[s-1]
		byReceipt[w.receipt] = append(byReceipt[w.receipt], w.event)
		got = append(got, m.msg(s))
	}
	for r := range b.receipts {
		es := byReceipt[r]
		if pct(t, "decoyproof", 15) {
			for e, ev := range b.receipts[r] {
				if ev.addr != m.src || ev.next != m.own && !python || ev.sig != "Message(str,int,bytes)" {
					es = append([]int{e}, es...)
					break
				}
			}
		}
		if len(es) > 0 {
			proofs = append(proofs, b.receiptProof(r, es))
		}
	}
	return
}

func (m *iconModel) honest(t *rapid.T) (msg []byte, got [][]byte, top int) {
	for m.rx+1 > m.sent || len(m.chain) < m.top+1 {
		m.extend(t)
	}
	at := m.where[m.rx].block
	if at < m.top { // within a verified block
		p, g := m.run(t, at, rapid.IntRange(1, 5).Draw(t, "n"))
		return iconRelay(nil, m.blockProof(at, m.top), p), g, m.top
	}
	to := m.top + rapid.IntRange(1, at+1-m.top).Draw(t, "blocks")
	var us [][]byte
	for _, b := range m.chain[m.top:to] {
		us = append(us, m.update(t, b))
	}
	if to == at+1 && pct(t, "withmsgs", 80) {
		p, g := m.run(t, at, rapid.IntRange(1, 5).Draw(t, "n"))
		return iconRelay(us, nil, p), g, to
	}
	return iconRelay(us, nil, nil), nil, to
}

func (m *iconModel) send(from jvm.Addr, own, prev string, seq int64, msg []byte) ([][]byte, error) {
	var arg interface{} = msg
	if python {
		arg = base64.URLEncoding.EncodeToString(msg)
	}
	r, err := vm.Call(from, jvm.CX(bmvAt), 0, "handleRelayMessage", own, prev, seq, arg)
	if err != nil {
		return nil, err
	}
	var out [][]byte
	for i, x := range r.Ret.([]interface{}) {
		b, ok := x.([]byte)
		if !ok {
			m.t.Fatalf("result %d of %d of handleRelayMessage is %v", i, len(r.Ret.([]interface{})), x)
		}
		out = append(out, b)
	}
	return out, nil
}

func (m *iconModel) height() int64 {
	r, err := vm.Query(jvm.CX(bmvAt), "getStatus")
	if err != nil {
		m.t.Fatalf("getStatus fails: %v", err)
	}
	d := r.(map[string]interface{})
	if python {
		if o := d["offset"].(*big.Int).Int64(); o != m.base {
			m.t.Fatalf("the offset is %d for %d", o, m.base)
		}
		m.lastHeight = d["last_height"].(*big.Int).Int64()
	}
	return d["height"].(*big.Int).Int64()
}

// lastBlock is the height of the block with the message taken last.
func (m *iconModel) lastBlock() int64 {
	for i, b := range m.chain {
		for _, r := range b.receipts {
			for _, e := range r {
				if e.addr == m.src && e.next == m.own && e.sig == "Message(str,int,bytes)" && e.seq == m.rx {
					return m.base + int64(i) + 1
				}
			}
		}
	}
	return -1
}

func (m *iconModel) settle(what string, got [][]byte, err error, must bool) bool {
	h := m.height()
	if err != nil {
		if h != m.base+int64(m.top) {
			m.t.Fatalf("%s: refused, and the height changed to %d", what, h)
		}
		return false
	}
	if must {
		m.t.Fatalf("%s: accepted with %d messages", what, len(got))
	}
	for i, g := range got {
		if m.rx+int64(i)+1 > m.sent || !bytes.Equal(g, m.msg(m.rx+int64(i)+1)) {
			m.t.Fatalf("%s: message %d of %d taken is not the next of the source chain: %x", what, i, len(got), g)
		}
	}
	if h < m.base+int64(m.top) || h > m.base+int64(len(m.chain)) {
		m.t.Fatalf("%s: accepted and the height is %d after %d", what, h, m.base+int64(m.top))
	}
	m.rx += int64(len(got))
	m.top = int(h - m.base)
	if b := m.lastBlock(); python && b >= 0 && m.lastHeight != b {
		m.t.Fatalf("%s: the height of the last message is %d, not %d", what, m.lastHeight, b)
	}
	return true
}

// forge makes a relay message of an adversary without a quorum.
func (m *iconModel) forge(t *rapid.T) (string, []byte, bool) {
	for len(m.chain) < m.top+3 || m.rx+3 > m.sent {
		m.extend(t)
	}
	m.rnd++
	next := m.chain[m.top]
	evil := func(seq int64) *iconEvent {
		return &iconEvent{m.src, "Message(str,int,bytes)", m.own, seq, []byte(fmt.Sprintf("forged %d", m.rnd))}
	}
	nextV := func(b *iconBlock) []byte {
		if bytes.Equal(validatorsBytes(b.signers), validatorsBytes(b.next)) {
			return nil
		}
		return validatorsBytes(b.next)
	}
	few := pbt.Pick(t, "nfew", quorum(len(next.signers)))
	fb := *next
	fb.receipts = [][]*iconEvent{{evil(m.rx + 1)}}
	fb.fork = []byte("fork")
	switch kind := pbt.Pick(t, "forgery", 14); kind {
	case 0:
		v := m.votes(t, next, pick(t, next.signers, few))
		return "few votes", iconRelay([][]byte{iconUpdate(next.header(), v.encode(), nextV(next))}, nil, nil), true
	case 1:
		v := m.votes(t, next, pick(t, next.signers, few))
		for len(v.items) < len(next.signers)+1 {
			switch pbt.Pick(t, "filler", 4) {
			case 0:
				v.sign(rapid.IntRange(20, 26).Draw(t, "foreign"), next.height, next.hash(), 5)
			case 1:
				if few > 0 {
					v.items = append(v.items, v.items[0])
				} else {
					v.sign(20, next.height, next.hash(), 5)
				}
			case 2:
				if few > 0 {
					v.items = append(v.items, vote{v.items[0].ts, malleate(v.items[0].sig)})
				} else {
					v.items = append(v.items, vote{1, make([]byte, 65)})
				}
			case 3: // the same voter at another time
				if few > 0 {
					k := -1
					for _, s := range next.signers {
						w := &votesSet{round: v.round, count: v.count, hash: v.hash}
						w.sign(s, next.height, next.hash(), v.items[0].ts)
						if bytes.Equal(w.items[0].sig, v.items[0].sig) {
							k = s
						}
					}
					v.sign(k, next.height, next.hash(), v.items[0].ts+int64(len(v.items)))
				} else {
					v.sign(21, next.height, next.hash(), 5)
				}
			}
		}
		return "repeated or foreign votes", iconRelay([][]byte{iconUpdate(next.header(), v.encode(), nextV(next))}, nil, nil), true
	case 2: // forged block, votes of the true one
		v := m.votes(t, next, next.signers)
		return "forged block with true votes", iconRelay([][]byte{iconUpdate(fb.header(), v.encode(), nextV(next))}, nil, [][]byte{fb.receiptProof(0, []int{0})}), true
	case 3: // forged block, own votes
		v := m.votes(t, &fb, append(pick(t, next.signers, few), 20, 21, 22, 23, 24, 25, 26))
		return "forged block with own votes", iconRelay([][]byte{iconUpdate(fb.header(), v.encode(), nextV(next))}, nil, [][]byte{fb.receiptProof(0, []int{0})}), true
	case 4: // votes for another round, height or part set
		v := &votesSet{round: 1, count: 1, hash: sha([]byte("part"))}
		w := *v
		dh := int64(0)
		switch pbt.Pick(t, "other", 3) {
		case 0:
			w.round = 0
		case 1:
			w.hash = sha([]byte("other"))
		case 2:
			dh = 1
		}
		for _, k := range next.signers {
			w.sign(k, next.height+dh, next.hash(), 7)
		}
		v.items = w.items
		return "votes for something else", iconRelay([][]byte{iconUpdate(next.header(), v.encode(), nextV(next))}, nil, nil), true
	case 5:
		b := m.chain[m.top+1]
		return "block left out", iconRelay([][]byte{m.update(t, b)}, nil, nil), true
	case 6:
		if m.top == 0 {
			return "nothing", iconRelay(nil, nil, nil), true
		}
		b := m.chain[pbt.Pick(t, "old", m.top)]
		return "block again", iconRelay([][]byte{m.update(t, b)}, nil, nil), true
	case 7: // another validator set for the next block
		if nextV(next) == nil {
			fb.next = []int{20, 21}
			v := m.votes(t, next, next.signers)
			return "forged validators", iconRelay([][]byte{iconUpdate(fb.header(), v.encode(), validatorsBytes(fb.next))}, nil, nil), true
		}
		var nv []byte
		if pct(t, "foreignset", 70) {
			nv = validatorsBytes(oneOf(t, "set", []int{20, 21}, next.signers, append([]int{20}, next.next...)))
		}
		if bytes.Equal(nv, validatorsBytes(next.next)) {
			nv = nil
		}
		return "forged validators", iconRelay([][]byte{iconUpdate(next.header(), m.votes(t, next, next.signers).encode(), nv)}, nil, nil), true
	case 8: // forged block proof
		if m.top == 0 {
			return "nothing", iconRelay(nil, nil, [][]byte{fb.receiptProof(0, []int{0})}), true
		}
		i := pbt.Pick(t, "which", m.top)
		fb.height = m.chain[i].height
		var leaves [][]byte
		for _, b := range m.chain[:m.top] {
			leaves = append(leaves, b.hash())
		}
		var w [][]byte
		for _, x := range witness(leaves, i) {
			w = append(w, fake.EncBytes(x))
		}
		if k := pbt.Pick(t, "wit", 3); k == 1 {
			w = append(w, fake.EncBytes(sha([]byte("x"))))
		} else if k == 2 {
			w = nil
		}
		p := fake.EncList(fake.EncBytes(fb.header()), fake.EncList(fake.EncInt(m.base+int64(m.top)+rapid.Int64Range(-1, 1).Draw(t, "wat")), fake.EncList(w...)))
		return "forged block proof", iconRelay(nil, p, [][]byte{fb.receiptProof(0, []int{0})}), true
	case 9: // proof of a block that is not verified
		return "proof of a block to come", iconRelay(nil, m.blockProof(m.top, m.top+1), nil), true
	case 10: // true block, a receipt or event of the adversary
		b := m.chain[m.where[m.rx].block]
		var us [][]byte
		for k := m.top; k <= m.where[m.rx].block; k++ {
			us = append(us, m.update(t, m.chain[k]))
		}
		var p []byte
		if us == nil {
			p = m.blockProof(m.where[m.rx].block, m.top)
		}
		w := m.where[m.rx]
		ev := fake.EncList(fake.EncInt(int64(w.event)), mptList([][]byte{fake.EncList(fake.EncBytes([]byte{0x20}), fake.EncBytes(evil(m.rx+1).encode()))}))
		rp := fake.EncBytes(fake.EncList(fake.EncInt(int64(w.receipt)), mptList(trieProof(b.receiptBytes(), w.receipt)), fake.EncList(ev)))
		if pct(t, "wholereceipt", 50) {
			fb.receipts = [][]*iconEvent{{evil(m.rx + 1)}}
			rp = fb.receiptProof(0, []int{0})
		}
		return "forged receipt", iconRelay(us, p, [][]byte{rp}), true
	case 11, 12: // true messages out of order or with a hole, or again
		blk := m.where[m.rx].block
		if blk >= m.top {
			return "nothing", iconRelay(nil, nil, nil), true
		}
		b := m.chain[blk]
		r := pbt.Pick(t, "r", len(b.receipts))
		var es []int
		for k := rapid.IntRange(1, 3).Draw(t, "k"); k > 0; k-- {
			es = append(es, pbt.Pick(t, "e", len(b.receipts[r])))
		}
		return "messages out of order", iconRelay(nil, m.blockProof(blk, m.top), [][]byte{b.receiptProof(r, es)}), false
	default: // proof of a message of one block under another block
		if m.top < 2 {
			return "nothing", iconRelay([][]byte{}, nil, nil), true
		}
		blk := m.where[m.rx].block
		i := pbt.Pick(t, "under", m.top)
		if i == blk {
			return "nothing", iconRelay([][]byte{}, nil, nil), true
		}
		w := m.where[m.rx]
		return "message under another block", iconRelay(nil, m.blockProof(i, m.top), [][]byte{m.chain[blk].receiptProof(w.receipt, []int{w.event})}), true
	}
}

func TestV03(t *testing.T) { testIconBMV(t, "foundation.icon.btp.bmv.icon.BTPMessageVerifier") }

// TestY01 is TestV03 for the Python verifier.
func TestY01(t *testing.T) { testIconBMV(t, "pyscore.bmv.icon.icon.BTPMessageVerifier") }

func testIconBMV(t *testing.T, class string) {
	pbt.Check(t, 60, "at least three blocks verified, two messages taken and one hostile message refused",
		func(t *rapid.T, c *pbt.Case) {
			vm.Reset()
			bmc := jvm.CX(bmcAt)
			m := &iconModel{t: t, net: "0x1.icon", own: "btp://0x2.icon/" + string(bmc), src: jvm.CX(0x77), base: rapid.Int64Range(0, 300).Draw(t, "base"), vs: drawValidators(t)}
			var names []string
			for _, v := range m.vs {
				names = append(names, string(hxAddr(v)))
			}
			if err := vm.Deploy(jvm.CX(bmvAt), class, jvm.HX(1), bmc, m.net, strings.Join(names, ","), m.base); err != nil {
				t.Fatalf("cannot deploy the verifier: %v", err)
			}
			prev := "btp://" + m.net + "/" + string(m.src)
			refused := 0
			for i := rapid.IntRange(1, 12).Draw(t, "ops"); i > 0; i-- {
				switch op := pbt.Pick(t, "op", 10); {
				case op < 5:
					msg, want, top := m.honest(t)
					got, err := m.send(bmc, m.own, prev, m.rx, msg)
					c.Key("honest to block %d with %d messages", top, len(want))
					if err != nil {
						t.Fatalf("an honest relay message (blocks %d to %d, %d messages after %d) is refused: %v", m.top, top, len(want), m.rx, err)
					}
					if !same(got, want) {
						t.Fatalf("an honest relay message of %d messages gives %d: %x for %x", len(want), len(got), got, want)
					}
					m.rx += int64(len(want))
					m.top = top
					if h := m.height(); h != m.base+int64(top) {
						t.Fatalf("height %d after block %d", h, m.base+int64(top))
					}
				case op < 6:
					msg, want, _ := m.honest(t)
					from, o, p, s := bmc, m.own, prev, m.rx
					must := true
					switch pbt.Pick(t, "wrong", 5) {
					case 0:
						from = oneOf(t, "caller", jvm.HX(1), jvm.CX(0x55))
					case 1:
						o = "btp://0x2.icon/" + string(jvm.CX(0x56))
					case 2:
						p = "btp://0x3.icon/" + string(m.src)
					case 3:
						s += oneOf[int64](t, "ds", -1, 1)
						must = len(want) > 0
					case 4: // events of another contract of the source do not count
						p = "btp://" + m.net + "/" + string(jvm.CX(0x78))
						must = false
						want = nil
					}
					got, err := m.send(from, o, p, s, msg)
					if err == nil && len(got) > 0 {
						t.Fatalf("a message by a wrong caller, from a wrong network or of a wrong sequence gives %d messages", len(got))
					}
					if !m.settle("a message by a wrong caller, from a wrong network or of a wrong sequence", got, err, must) {
						refused++
					}
					c.Key("wrong way")
				case op < 9:
					what, msg, must := m.forge(t)
					got, err := m.send(bmc, m.own, prev, m.rx, msg)
					c.Key("%s", what)
					c.Label("%s accepted %v", what, err == nil)
					if !m.settle(what, got, err, must) {
						refused++
					}
				default:
					msg, _, _ := m.honest(t)
					msg = append([]byte{}, msg...)
					msg[pbt.Pick(t, "at", len(msg))] ^= byte(rapid.IntRange(1, 255).Draw(t, "bits"))
					got, err := m.send(bmc, m.own, prev, m.rx, msg)
					c.Key("flipped")
					c.Label("flipped accepted %v", err == nil)
					if !m.settle("a message with changed bytes", got, err, false) {
						refused++
					}
				}
			}
			c.NonTrivial(m.top >= 3 && m.rx >= 2 && refused > 0)
		})
}
