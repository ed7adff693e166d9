package score

import (
	"bytes"
	"fmt"
	"math/big"
	"testing"

	"pgregory.net/rapid"

	"verif/gocheck/fake"
	"verif/gocheck/jvm"
	"verif/gocheck/pbt"
)

// btpBlock is a block of the true chain of an ICON BTP network.
type btpBlock struct {
	height, round int64
	signers       []int // validators that decide this block
	next          []int // validators of the next one
	update        bool
	firstSN       int64
	msgs          [][]byte
	path          []pathItem
	prev          []byte
	nid           int64
}

type pathItem struct {
	dir  int64
	hash []byte
}

func blob(b []byte) []byte {
	if b == nil {
		return fake.EncNil()
	}
	return fake.EncBytes(b)
}

func proofContext(vs []int) []byte {
	var l [][]byte
	for _, v := range vs {
		l = append(l, fake.EncBytes(ethAddr(v)))
	}
	return fake.EncList(fake.EncList(l...))
}

func (b *btpBlock) root() []byte {
	if len(b.msgs) == 0 {
		return nil
	}
	r, err := fake.SegRoot(fake.Leaves(b.msgs))
	if err != nil {
		panic(err)
	}
	return r
}

func (b *btpBlock) updateNumber() int64 {
	n := b.firstSN << 1
	if b.update {
		n |= 1
	}
	return n
}

func (b *btpBlock) nsHash() []byte {
	return fake.Hash(fake.EncList(fake.EncInt(b.nid), fake.EncInt(b.updateNumber()), blob(b.prev), fake.EncInt(int64(len(b.msgs))), blob(b.root())))
}

func (b *btpBlock) header() []byte {
	var ps [][]byte
	for _, p := range b.path {
		ps = append(ps, fake.EncList(fake.EncInt(p.dir), fake.EncBytes(p.hash)))
	}
	pc := fake.EncNil()
	if b.update {
		pc = fake.EncBytes(proofContext(b.next))
	}
	return fake.EncList(fake.EncInt(b.height), fake.EncInt(b.round), fake.EncBytes(fake.Hash(proofContext(b.next))),
		fake.EncList(ps...), fake.EncInt(b.nid), fake.EncInt(b.updateNumber()), blob(b.prev),
		fake.EncInt(int64(len(b.msgs))), blob(b.root()), pc)
}

func (b *btpBlock) decision(src string, typ int64) []byte {
	h := b.nsHash()
	for _, p := range b.path {
		if p.dir == 0 {
			h = fake.Hash(p.hash, h)
		} else {
			h = fake.Hash(h, p.hash)
		}
	}
	nts := fake.Hash(fake.EncList(fake.EncBytes(fake.Hash(proofContext(b.next))), fake.EncBytes(h)))
	return fake.Hash(fake.EncList(fake.EncBytes([]byte(src)), fake.EncInt(typ), fake.EncInt(b.height), fake.EncInt(b.round), fake.EncBytes(nts)))
}

func blockUpdate(header []byte, sigs [][]byte) []byte {
	var l [][]byte
	for _, s := range sigs {
		l = append(l, fake.EncBytes(s))
	}
	return fake.EncList(fake.EncBytes(header), fake.EncBytes(fake.EncList(fake.EncList(l...))))
}

type btpItem struct {
	kind    int64
	payload []byte
}

func relayMessage(items []btpItem) []byte {
	var l [][]byte
	for _, i := range items {
		l = append(l, fake.EncList(fake.EncInt(i.kind), fake.EncBytes(i.payload)))
	}
	return fake.EncList(fake.EncList(l...))
}

type num struct {
	n int64
	v []byte
}

func messageProof(left []num, msgs [][]byte, right []num) []byte {
	f := func(ns []num) []byte {
		var l [][]byte
		for _, n := range ns {
			l = append(l, fake.EncList(fake.EncInt(n.n), fake.EncBytes(n.v)))
		}
		return fake.EncList(l...)
	}
	var ms [][]byte
	for _, m := range msgs {
		ms = append(ms, fake.EncBytes(m))
	}
	return fake.EncList(f(left), fake.EncList(ms...), f(right))
}

// cover is the list of the full subtrees that make up the leaves [from, to) of a tree over [0, n), in order.
func cover(leaves []fake.Seg, from, to int) []num {
	var out []num
	var walk func(a, b int)
	walk = func(a, b int) {
		if a >= to || b <= from {
			return
		}
		if a >= from && b <= to {
			r, err := fake.SegRoot(leaves[a:b])
			if err != nil {
				panic(err)
			}
			out = append(out, num{int64(b - a), r})
			return
		}
		k := 1
		for k*2 < b-a {
			k *= 2
		}
		walk(a, a+k)
		walk(a+k, b)
	}
	walk(0, len(leaves))
	return out
}

func (b *btpBlock) proof(from, to int) []byte {
	ls := fake.Leaves(b.msgs)
	return messageProof(cover(ls, 0, from), b.msgs[from:to], cover(ls, to, len(ls)))
}

func quorum(n int) int { return 2*n/3 + 1 }

type btpModel struct {
	t      *rapid.T
	src    string
	net    string
	typ    int64
	offset int64
	chain  []*btpBlock
	cur    int   // block the verifier stands at
	done   int   // messages of it that have been taken
	rnd    int64 // for forged contents
}

const (
	bmvAt = 0x101
	bmcAt = 0x102
)

func (m *btpModel) seq() int64 { return m.chain[m.cur].firstSN + int64(m.done) }

func drawValidators(t *rapid.T) []int {
	n := rapid.IntRange(1, 7).Draw(t, "validators")
	return rapid.Permutation([]int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}).Draw(t, "who")[:n]
}

func drawMsg(t *rapid.T) []byte {
	if pct(t, "sixtyfour", 15) {
		return rapid.SliceOfN(rapid.Byte(), 64, 64).Draw(t, "msg")
	}
	return rapid.SliceOfN(rapid.Byte(), 1, 40).Draw(t, "msg")
}

// extend adds a block to the true chain.
func (m *btpModel) extend(t *rapid.T) {
	last := m.chain[len(m.chain)-1]
	b := &btpBlock{height: last.height + rapid.Int64Range(1, 300).Draw(t, "dh"), round: rapid.Int64Range(0, 3).Draw(t, "round"),
		signers: last.next, next: last.next, firstSN: last.firstSN + int64(len(last.msgs)), prev: last.nsHash(), nid: last.nid}
	if pct(t, "update", 30) {
		nv := drawValidators(t)
		if !bytes.Equal(proofContext(nv), proofContext(b.next)) {
			b.update, b.next = true, nv
		}
	}
	n := pbt.Pick(t, "count", 7)
	if pct(t, "many", 5) {
		n = rapid.IntRange(7, 40).Draw(t, "manycount")
	}
	if n == 0 && !b.update {
		n = 1
	}
	for i := 0; i < n; i++ {
		b.msgs = append(b.msgs, drawMsg(t))
	}
	for i := pbt.Pick(t, "depth", 4); i > 0; i-- {
		b.path = append(b.path, pathItem{rapid.Int64Range(0, 1).Draw(t, "dir"), fake.Hash([]byte{byte(i), byte(b.height)})})
	}
	m.chain = append(m.chain, b)
}

func (m *btpModel) signed(b *btpBlock, ks []int) []byte {
	d := b.decision(m.src, m.typ)
	var sigs [][]byte
	for _, k := range ks {
		sigs = append(sigs, sign(k, d))
	}
	return blockUpdate(b.header(), sigs)
}

// pick chooses at least a quorum (often exactly one) of the signers of a block.
func pick(t *rapid.T, vs []int, n int) []int {
	return append([]int{}, rapid.Permutation(vs).Draw(t, "signers")[:n]...)
}

func (m *btpModel) quorate(t *rapid.T, b *btpBlock) []byte {
	q := quorum(len(b.signers))
	n := q
	if len(b.signers) > q && pct(t, "more", 40) {
		n = rapid.IntRange(q, len(b.signers)).Draw(t, "nsign")
	}
	return m.signed(b, pick(t, b.signers, n))
}

// honest makes the items of a relay message an honest relay sends next and where the verifier stands after it.
func (m *btpModel) honest(t *rapid.T) (items []btpItem, want [][]byte, cur, done int) {
	cur, done = m.cur, m.done
	updated := false
	for step := 0; step < 6; step++ {
		b := m.chain[cur]
		if done < len(b.msgs) {
			if updated && done > 0 {
				break
			}
			to := len(b.msgs)
			if pct(t, "partial", 40) {
				to = rapid.IntRange(done+1, len(b.msgs)).Draw(t, "to")
			}
			items = append(items, btpItem{2, b.proof(done, to)})
			want = append(want, b.msgs[done:to]...)
			done = to
		} else {
			if cur+1 == len(m.chain) {
				m.extend(t)
			}
			cur, done, updated = cur+1, 0, true
			items = append(items, btpItem{1, m.quorate(t, m.chain[cur])})
		}
		if pct(t, "stop", 35) {
			break
		}
	}
	return
}

func (m *btpModel) status() (h, sn, count int64) {
	r, err := vm.Query(jvm.CX(bmvAt), "getStatus")
	if err != nil {
		m.t.Fatalf("getStatus fails: %v", err)
	}
	st := r.(map[string]interface{})
	it, err := fake.ParseRLP(st["extra"].([]byte))
	if err != nil {
		m.t.Fatalf("the extra of the status does not parse: %v", err)
	}
	fs, err := it.Seq(3)
	if err != nil {
		m.t.Fatalf("extra: %v", err)
	}
	var v [3]int64
	for i := range v {
		if v[i], err = fs[i].Int(); err != nil {
			m.t.Fatalf("extra: %v", err)
		}
	}
	if v[0] != m.offset {
		m.t.Fatalf("the status has the offset %d, deployed with %d", v[0], m.offset)
	}
	return st["height"].(*big.Int).Int64(), v[1], v[2]
}

func (m *btpModel) checkStatus(when string) {
	b := m.chain[m.cur]
	h, sn, c := m.status()
	if h != b.height || sn != b.firstSN || c != int64(len(b.msgs)) {
		m.t.Fatalf("%s the status is height %d first %d count %d, the verified block has %d %d %d", when, h, sn, c, b.height, b.firstSN, len(b.msgs))
	}
}

func (m *btpModel) send(from jvm.Addr, bmc, prev string, seq int64, msg []byte) ([][]byte, error) {
	r, err := vm.Call(from, jvm.CX(bmvAt), 0, "handleRelayMessage", bmc, prev, seq, msg)
	if err != nil {
		return nil, err
	}
	var out [][]byte
	for i, x := range r.Ret.([]interface{}) {
		b, ok := x.([]byte)
		if !ok {
			m.t.Fatalf("result %d of handleRelayMessage is %v", i, x)
		}
		out = append(out, b)
	}
	return out, nil
}

func same(a, b [][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !bytes.Equal(a[i], b[i]) {
			return false
		}
	}
	return true
}

// rest of the true messages after where the verifier stands.
func (m *btpModel) rest() [][]byte {
	var out [][]byte
	for i := m.cur; i < len(m.chain); i++ {
		f := 0
		if i == m.cur {
			f = m.done
		}
		out = append(out, m.chain[i].msgs[f:]...)
	}
	return out
}

// settle checks the result of a message of unknown worth: either nothing changed, or true messages were taken in order.
func (m *btpModel) settle(what string, got [][]byte, err error, mustFail bool) bool {
	if err != nil {
		m.checkStatus("after a refused message")
		return false
	}
	if mustFail {
		m.t.Fatalf("%s: accepted with %d messages", what, len(got))
	}
	rest := m.rest()
	if len(got) > len(rest) || !same(got, rest[:len(got)]) {
		m.t.Fatalf("%s: accepted with messages that are not the next of the source chain: %x", what, got)
	}
	h, _, _ := m.status()
	at := -1
	for i := m.cur; i < len(m.chain); i++ {
		if m.chain[i].height == h {
			at = i
		}
	}
	if at < 0 {
		m.t.Fatalf("%s: accepted and the verifier stands at height %d, no block of the source chain", what, h)
	}
	sn := m.seq() + int64(len(got))
	m.cur, m.done = at, int(sn-m.chain[at].firstSN)
	if m.done < 0 || m.done > len(m.chain[at].msgs) {
		m.t.Fatalf("%s: accepted a block at height %d while messages before it are not taken", what, h)
	}
	m.checkStatus("after an accepted message")
	return true
}

// forge makes a relay message an adversary sends who holds some keys but no quorum.
func (m *btpModel) forge(t *rapid.T) (string, []byte, bool) {
	if m.cur+2 >= len(m.chain) {
		m.extend(t)
		m.extend(t)
	}
	next := m.chain[m.cur+1]
	full := m.done == len(m.chain[m.cur].msgs)
	m.rnd++
	evil := func() []byte { return []byte(fmt.Sprintf("forged %d", m.rnd)) }
	var items []btpItem
	// bring an honest prefix up to the end of the block sometimes
	if !full && pct(t, "prefix", 50) {
		items = append(items, btpItem{2, m.chain[m.cur].proof(m.done, len(m.chain[m.cur].msgs))})
		full = true
	}
	c := *next
	switch kind := pbt.Pick(t, "forgery", 13); kind {
	case 0: // too few signers
		n := pbt.Pick(t, "nfew", quorum(len(next.signers)))
		items = append(items, btpItem{1, m.signed(next, pick(t, next.signers, n))})
		return "few signatures", relayMessage(items), true
	case 1: // too few distinct signers, the rest repeated or malleated or foreign
		n := pbt.Pick(t, "nfew", quorum(len(next.signers)))
		ks := pick(t, next.signers, n)
		d := next.decision(m.src, m.typ)
		var sigs [][]byte
		for _, k := range ks {
			sigs = append(sigs, sign(k, d))
		}
		for len(sigs) < len(next.signers)+1 {
			switch pbt.Pick(t, "filler", 3) {
			case 0:
				if n > 0 {
					sigs = append(sigs, sigs[pbt.Pick(t, "dup", n)])
				} else {
					sigs = append(sigs, sign(20, d))
				}
			case 1:
				sigs = append(sigs, sign(rapid.IntRange(20, 26).Draw(t, "foreign"), d))
			case 2:
				if n > 0 {
					sigs = append(sigs, malleate(sigs[pbt.Pick(t, "mal", n)]))
				} else {
					sigs = append(sigs, make([]byte, 65))
				}
			}
		}
		items = append(items, btpItem{1, blockUpdate(next.header(), sigs)})
		return "repeated or foreign signatures", relayMessage(items), true
	case 2: // another content under the signatures of the true block
		switch pbt.Pick(t, "alter", 8) {
		case 0:
			c.msgs = append(append([][]byte{}, c.msgs...), evil())
		case 1:
			c.msgs = [][]byte{evil()}
		case 2:
			c.height++
		case 3:
			c.round++
		case 4:
			c.next, c.update = []int{20, 21}, true
		case 5:
			c.prev = fake.Hash(evil())
		case 6:
			c.nid++
		case 7:
			c.path = append(append([]pathItem{}, c.path...), pathItem{0, fake.Hash(evil())})
		}
		d := next.decision(m.src, m.typ)
		var sigs [][]byte
		for _, k := range next.signers {
			sigs = append(sigs, sign(k, d))
		}
		items = append(items, btpItem{1, blockUpdate(c.header(), sigs)})
		if len(c.msgs) > 0 {
			items = append(items, btpItem{2, c.proof(0, len(c.msgs))})
		}
		return "altered block", relayMessage(items), true
	case 3: // the content of the adversary with the keys it has
		c.msgs = [][]byte{evil()}
		c.next, c.update = []int{20, 21}, true
		n := pbt.Pick(t, "nfew", quorum(len(next.signers)))
		ks := append(pick(t, next.signers, n), 20, 21, 22, 23, 24, 25, 26)
		items = append(items, btpItem{1, m.signed(&c, ks)}, btpItem{2, c.proof(0, 1)})
		return "block of the adversary", relayMessage(items), true
	case 4: // a block left out
		items = append(items, btpItem{1, m.quorate(t, m.chain[m.cur+2])})
		return "block left out", relayMessage(items), true
	case 5: // a block again
		i := rapid.IntRange(0, m.cur).Draw(t, "again")
		if i == 0 {
			return "nothing", relayMessage([]btpItem{{7, nil}}), true
		}
		items = append(items, btpItem{1, m.signed(m.chain[i], m.chain[i].signers)})
		return "block again", relayMessage(items), true
	case 6: // a block for another network or type
		d := next.decision(oneOf(t, "osrc", m.src, "0x9."+m.net, m.net), m.typ+oneOf[int64](t, "otyp", 1, 2))
		var sigs [][]byte
		for _, k := range next.signers {
			sigs = append(sigs, sign(k, d))
		}
		items = append(items, btpItem{1, blockUpdate(next.header(), sigs)})
		return "signatures for another network", relayMessage(items), true
	case 7: // signatures of an older or newer set that is not the one in force
		var set []int
		for _, b := range m.chain[1:] {
			if !overlap(b.next, next.signers) {
				set = b.next
			}
		}
		if set == nil {
			set = []int{20, 21, 22, 23, 24, 25, 26}
		}
		items = append(items, btpItem{1, m.signed(next, set)})
		return "signatures of another set", relayMessage(items), true
	}
	// forged proofs of messages, for the current block or for the next after its update
	b, done := m.chain[m.cur], m.done
	if full && len(next.msgs) > 0 {
		items = append(items, btpItem{1, m.quorate(t, next)})
		b, done = next, 0
	} else if full {
		return "junk", relayMessage([]btpItem{{2, b.proof(0, len(b.msgs))}}), false
	}
	if len(items) > 0 && b == m.chain[m.cur] {
		items = nil
	}
	n := len(b.msgs)
	ls := fake.Leaves(b.msgs)
	switch oneOf(t, "proof", 0, 1, 2, 3, 4, 4, 4, 5, 6) {
	case 0: // a message changed
		ms := append([][]byte{}, b.msgs[done:]...)
		ms[pbt.Pick(t, "which", len(ms))] = evil()
		items = append(items, btpItem{2, messageProof(cover(ls, 0, done), ms, nil)})
	case 1: // messages left out or again
		from := pbt.Pick(t, "from", n)
		to := rapid.IntRange(from+1, n).Draw(t, "to")
		if from == done {
			from = n
			to = n
		}
		items = append(items, btpItem{2, b.proof(from, to)})
	case 2: // an inner node of the tree as a message
		i := pbt.Pick(t, "inner", n)
		j := rapid.IntRange(i+1, n).Draw(t, "innerto")
		if j == i+1 {
			j = min(n, i+2)
		}
		if j <= i+1 {
			i, j = 0, n
		}
		if j-i < 2 {
			return "junk", relayMessage([]btpItem{{2, nil}}), true
		}
		k := 1
		for k*2 < j-i {
			k *= 2
		}
		l, _ := fake.SegRoot(ls[i : i+k])
		r, _ := fake.SegRoot(ls[i+k : j])
		items = append(items, btpItem{2, messageProof(cover(ls, 0, i), [][]byte{append(append([]byte{}, l...), r...)}, cover(ls, j, n))})
	case 3: // numbers of leaves that do not add up, negative ones included
		var left, right []num
		for i := pbt.Pick(t, "nl", 4); i > 0; i-- {
			left = append(left, num{rapid.Int64Range(-3, 5).Draw(t, "ln"), fake.Hash(evil())})
		}
		for i := pbt.Pick(t, "nr", 4); i > 0; i-- {
			right = append(right, num{rapid.Int64Range(-5, 5).Draw(t, "rn"), fake.Hash(evil())})
		}
		right = append(right, num{int64(n), b.root()})
		items = append(items, btpItem{2, messageProof(left, [][]byte{evil()}, right)})
	case 4: // numbers that cancel out, so that only the last one counts
		// the tree of the left numbers and the message is given up when its level reaches that of an empty one
		k := oneOf[int64](t, "k", 2, 2, 2, 3, 4, 9)
		left := []num{{-1, fake.Hash(evil())}, {k, fake.Hash(evil())}, {1 - k, fake.Hash(evil())}}
		// after left: offset 0; the root has the level of a leaf of 1-k leaves
		right := []num{}
		if k == 2 {
			right = append(right, num{-4, fake.Hash(evil())}, num{3, fake.Hash(evil())})
		} else {
			x := rapid.Int64Range(-6, 6).Draw(t, "x")
			right = append(right, num{x, fake.Hash(evil())}, num{-1 - x, fake.Hash(evil())})
		}
		right = append(right, num{int64(n), b.root()})
		items = append(items, btpItem{2, messageProof(left, [][]byte{evil()}, right)})
	case 5: // too many messages
		items = append(items, btpItem{2, messageProof(cover(ls, 0, done), append(append([][]byte{}, b.msgs[done:]...), evil()), nil)})
	case 6: // true messages after a hole
		if n-done < 2 {
			return "junk", relayMessage([]btpItem{{2, []byte{0xc0}}}), true
		}
		f := rapid.IntRange(done+1, n-1).Draw(t, "hole")
		items = append(items, btpItem{2, messageProof(cover(ls, 0, done), b.msgs[f:], nil)})
	}
	return "forged proof", relayMessage(items), false
}

func malleate(sig []byte) []byte {
	n, _ := new(big.Int).SetString("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", 16)
	s := new(big.Int).Sub(n, new(big.Int).SetBytes(sig[32:64]))
	out := append([]byte{}, sig...)
	s.FillBytes(out[32:64])
	out[64] ^= 1
	return out
}

func overlap(a, b []int) bool {
	for _, x := range a {
		for _, y := range b {
			if x == y {
				return true
			}
		}
	}
	return false
}

func TestV01(t *testing.T) {
	pbt.Check(t, 60, "at least two blocks verified, one message taken and one hostile message refused",
		func(t *rapid.T, c *pbt.Case) {
			vm.Reset()
			m := &btpModel{t: t, net: oneOf(t, "net", "0x1.icon", "0x7.icon"), typ: rapid.Int64Range(1, 3).Draw(t, "typ"),
				offset: oneOf[int64](t, "offset", 0, 0, 0, 1, 7, 1000)}
			m.src = m.net
			if pct(t, "longsrc", 20) {
				m.src = "btp/" + m.net
			}
			vs := drawValidators(t)
			first := &btpBlock{height: rapid.Int64Range(1, 100).Draw(t, "h0"), next: vs, update: true, nid: rapid.Int64Range(1, 300).Draw(t, "nid")}
			for i := rapid.IntRange(0, 3).Draw(t, "m0"); i > 0; i-- {
				first.msgs = append(first.msgs, drawMsg(t))
			}
			m.chain = []*btpBlock{first}
			bmc := jvm.CX(bmcAt)
			if err := vm.Deploy(jvm.CX(bmvAt), "foundation.icon.btp.bmv.btpblock.BTPMessageVerifier", jvm.HX(1), m.src, m.typ, bmc, first.header(), m.offset); err != nil {
				t.Fatalf("cannot deploy the verifier: %v", err)
			}
			m.checkStatus("after the deployment")
			own := "btp://0x2.icon/" + string(bmc)
			prev := "btp://" + m.net + "/cx" + fmt.Sprintf("%040x", 77)
			hostile, taken := 0, 0
			for i := rapid.IntRange(1, 10).Draw(t, "ops"); i > 0; i-- {
				seq := m.offset + m.seq()
				switch op := pbt.Pick(t, "op", 10); {
				case op < 4: // honest
					items, want, cur, done := m.honest(t)
					got, err := m.send(bmc, own, prev, seq, relayMessage(items))
					c.Key("honest %d items %d messages block %d", len(items), len(want), cur)
					if err != nil {
						t.Fatalf("an honest relay message of %d parts (blocks %d to %d, %d messages) is refused: %v", len(items), m.cur, cur, len(want), err)
					}
					if !same(got, want) {
						t.Fatalf("an honest relay message of %d messages gives %d: %x for %x", len(want), len(got), got, want)
					}
					m.cur, m.done = cur, done
					taken += len(want)
					m.checkStatus("after an honest message")
				case op < 5: // honest message, wrong way in
					items, _, _, _ := m.honest(t)
					from, o, p, s := bmc, own, prev, seq
					switch pbt.Pick(t, "wrong", 5) {
					case 0:
						from = oneOf(t, "caller", jvm.HX(1), jvm.CX(0x55), jvm.CX(bmvAt))
					case 1:
						o = "btp://0x2.icon/" + string(jvm.CX(0x56))
					case 2:
						p = "btp://" + oneOf(t, "onet", "0x3.icon", m.net+"x", "x"+m.net) + "/" + string(jvm.CX(77))
					case 3:
						s += oneOf[int64](t, "ds", -1, 1, 5)
					case 4:
						s = m.seq() + 1 + m.offset*2
					}
					got, err := m.send(from, o, p, s, relayMessage(items))
					m.settle("a message by a wrong caller, from a wrong network or of a wrong sequence", got, err, true)
					c.Key("wrong way")
					hostile++
				case op < 9:
					what, msg, must := m.forge(t)
					got, err := m.send(bmc, own, prev, seq, msg)
					c.Key("%s", what)
					c.Label("%s accepted %v", what, err == nil)
					if !m.settle(what, got, err, must) {
						hostile++
					}
				default: // flipped bytes
					items, _, _, _ := m.honest(t)
					msg := relayMessage(items)
					for k := rapid.IntRange(1, 2).Draw(t, "flips"); k > 0; k-- {
						msg[pbt.Pick(t, "at", len(msg))] ^= byte(rapid.IntRange(1, 255).Draw(t, "bits"))
					}
					got, err := m.send(bmc, own, prev, seq, msg)
					c.Key("flipped")
					c.Label("flipped accepted %v", err == nil)
					if !m.settle("a message with changed bytes", got, err, false) {
						hostile++
					}
				}
			}
			c.NonTrivial(m.cur >= 2 && taken > 0 && hostile > 0)
		})
}
