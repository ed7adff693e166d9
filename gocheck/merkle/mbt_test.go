package merkle

import (
	"bytes"
	"fmt"
	"testing"

	"github.com/icon-project/btp/common/codec"
	"github.com/icon-project/btp/common/mbt"
	"golang.org/x/crypto/sha3"
	"pgregory.net/rapid"

	"verif/gocheck/pbt"
)

func refHash(uid string, parts ...[]byte) []byte {
	h := sha3.New256()
	if uid == "eth" {
		h = sha3.NewLegacyKeccak256()
	}
	for _, p := range parts {
		h.Write(p)
	}
	return h.Sum(nil)
}

// refRoot is the root of the binary tree whose left subtree is the largest
// full one.
func refRoot(uid string, leaves [][]byte) []byte {
	switch len(leaves) {
	case 0:
		return nil
	case 1:
		return refHash(uid, leaves[0])
	}
	k := 1
	for k*2 < len(leaves) {
		k *= 2
	}
	return refHash(uid, refRoot(uid, leaves[:k]), refRoot(uid, leaves[k:]))
}

func genContents(t *rapid.T, min, max int) [][]byte {
	n := rapid.OneOf(rapid.IntRange(min, max), rapid.SampledFrom([]int{min, min + 1, min + 2, 3, 4, 5, 7, 8, 9, 15, 16, 17})).Draw(t, "n")
	if n < min {
		n = min
	}
	if n > max {
		n = max
	}
	cs := make([][]byte, n)
	for i := range cs {
		if rapid.IntRange(0, 5).Draw(t, "k") == 0 {
			cs[i] = rapid.SliceOfN(rapid.Byte(), 0, 70).Draw(t, "c")
			if cs[i] == nil {
				cs[i] = []byte{}
			}
		} else {
			cs[i] = []byte(fmt.Sprintf("m%d", i))
		}
	}
	return cs
}

func TestM01_ProofComplete(t *testing.T) {
	pbt.Check(t, 3000, "message lists of 1..40 (duplicates and empty messages included), every kind of range; non-trivial = at least 3 messages and a proper sub-range", func(t *rapid.T, c *pbt.Case) {
		uid := rapid.SampledFrom([]string{"eth", "icon"}).Draw(t, "uid")
		max := 40
		if pbt.Pct(t, "big", 2) {
			max = 300
		}
		cs := genContents(t, 1, max)
		n := len(cs)
		begin := rapid.IntRange(1, n).Draw(t, "begin")
		end := rapid.IntRange(begin, n).Draw(t, "end")
		c.Key("%s n=%d [%d,%d] %x", uid, n, begin, end, cs)
		c.NonTrivial(n >= 3 && (begin > 1 || end < n))
		keep := make([][]byte, n)
		for i := range cs {
			keep[i] = append([]byte{}, cs[i]...)
		}
		want := refRoot(uid, cs)
		mt, err := mbt.NewMerkleBinaryTree(mbt.HashFuncByUID(uid), cs)
		if err != nil {
			t.Fatalf("new: %v", err)
		}
		if !bytes.Equal(mt.Root(), want) || mt.Len() != n {
			t.Fatalf("root of %d messages %x, want %x", n, mt.Root(), want)
		}
		inc, err := mbt.NewMerkleBinaryTree(mbt.HashFuncByUID(uid), nil)
		if err != nil {
			t.Fatalf("new: %v", err)
		}
		k := rapid.IntRange(0, n).Draw(t, "k")
		if k > 0 && rapid.Bool().Draw(t, "pre") {
			inc, _ = mbt.NewMerkleBinaryTree(mbt.HashFuncByUID(uid), append([][]byte{}, cs[:k]...))
		} else {
			k = 0
		}
		for i, m := range cs[k:] {
			if err := inc.Add(m); err != nil {
				t.Fatalf("add: %v", err)
			}
			if w := refRoot(uid, cs[:k+i+1]); !bytes.Equal(inc.Root(), w) || inc.Len() != k+i+1 {
				t.Fatalf("root after adding message %d (built with %d) is %x, want %x", k+i+1, k, inc.Root(), w)
			}
		}
		for i := 1; i <= n; i++ {
			if m, err := mt.Get(i); err != nil || !bytes.Equal(m, keep[i-1]) {
				t.Fatalf("Get(%d) = %x, %v", i, m, err)
			}
		}
		for _, tr := range []*mbt.MerkleBinaryTree{mt, inc} {
			p, err := tr.Proof(begin, end)
			if err != nil {
				t.Fatalf("Proof(%d,%d) of %d: %v", begin, end, n, err)
			}
			check := func(p *mbt.MerkleBinaryTreeProof, how string) {
				h, left, total, err := p.Root()
				if err != nil || !bytes.Equal(h, want) || left != begin-1 || total != n {
					t.Fatalf("%s Proof(%d,%d) of %d: root %x left %d total %d err %v; want root %x", how, begin, end, n, h, left, total, err, want)
				}
				if len(p.Contents) != end-begin+1 {
					t.Fatalf("%s Proof(%d,%d) carries %d messages", how, begin, end, len(p.Contents))
				}
				for i := range p.Contents {
					if !bytes.Equal(p.Contents[i], keep[begin-1+i]) {
						t.Fatalf("%s Proof(%d,%d) carries %x as message %d", how, begin, end, p.Contents[i], begin+i)
					}
				}
			}
			check(p, "fresh")
			check(p, "again")
			// as sent to the verifier
			b, err := codec.RLP.MarshalToBytes(p)
			if err != nil {
				t.Fatalf("encode: %v", err)
			}
			var q mbt.MerkleBinaryTreeProof
			if rest, err := codec.RLP.UnmarshalFromBytes(b, &q); err != nil || len(rest) != 0 {
				t.Fatalf("decode: %v", err)
			}
			q.SetHashFunc(mbt.HashFuncByUID(uid))
			check(&q, "decoded")
		}
		i := rapid.IntRange(1, n).Draw(t, "i")
		pa, err := mt.Path(i)
		if err != nil || !bytes.Equal(pa.Root(), want) || !bytes.Equal(pa.Content, keep[i-1]) {
			t.Fatalf("Path(%d) of %d does not lead to the root: %v", i, n, err)
		}
		if !bytes.Equal(mt.Root(), want) {
			t.Fatalf("building proofs changed the root")
		}
		for _, r := range [][2]int{{0, end}, {begin, n + 1}, {-1, 1}, {n + 1, n + 1}, {0, 0}} {
			if p := pbt.NoPanic(func() {
				if _, err := mt.Proof(r[0], r[1]); err == nil {
					t.Fatalf("Proof(%d,%d) of %d messages was produced", r[0], r[1], n)
				}
			}); p != "" {
				t.Fatalf("Proof(%d,%d): %s", r[0], r[1], p)
			}
		}
		if begin < end {
			if _, err := mt.Proof(end, begin); err == nil {
				t.Fatalf("Proof(%d,%d) was produced", end, begin)
			}
		}
		for _, x := range []int{0, -1, n + 1} {
			if _, err := mt.Get(x); err == nil {
				t.Fatalf("Get(%d) of %d messages", x, n)
			}
			if _, err := mt.Path(x); err == nil {
				t.Fatalf("Path(%d) of %d messages", x, n)
			}
		}
	})
}

func cloneProof(p *mbt.MerkleBinaryTreeProof) *mbt.MerkleBinaryTreeProof {
	q := &mbt.MerkleBinaryTreeProof{}
	for _, n := range p.ProofInLeft {
		q.ProofInLeft = append(q.ProofInLeft, mbt.ProofNode{NumOfLeaf: n.NumOfLeaf, Value: append([]byte{}, n.Value...)})
	}
	for _, n := range p.Contents {
		q.Contents = append(q.Contents, append([]byte{}, n...))
	}
	for _, n := range p.ProofInRight {
		q.ProofInRight = append(q.ProofInRight, mbt.ProofNode{NumOfLeaf: n.NumOfLeaf, Value: append([]byte{}, n.Value...)})
	}
	return q
}

// A forged proof is rejected: whatever is presented, when it leads to the
// tree's root, position and length, it carries the tree's messages.
func TestM01_ProofSound(t *testing.T) {
	pbt.Check(t, 5000, "a valid proof with 1..3 random edits (message bytes, node hashes, counts, dropped/duplicated/moved/swapped nodes, inner nodes passed as messages); non-trivial = the edited proof differs from the valid one", func(t *rapid.T, c *pbt.Case) {
		uid := rapid.SampledFrom([]string{"eth", "icon"}).Draw(t, "uid")
		cs := genContents(t, 1, 20)
		n := len(cs)
		begin := rapid.IntRange(1, n).Draw(t, "begin")
		end := rapid.IntRange(begin, n).Draw(t, "end")
		mt, _ := mbt.NewMerkleBinaryTree(mbt.HashFuncByUID(uid), cs)
		orig, err := mt.Proof(begin, end)
		if err != nil {
			t.Fatalf("proof: %v", err)
		}
		p := cloneProof(orig)
		var edits []string
		for e := rapid.IntRange(1, 3).Draw(t, "edits"); e > 0; e-- {
			nodes := &p.ProofInLeft
			side := "L"
			if rapid.Bool().Draw(t, "right") {
				nodes = &p.ProofInRight
				side = "R"
			}
			k := rapid.IntRange(0, 10).Draw(t, "edit")
			edits = append(edits, fmt.Sprintf("%s%d", side, k))
			pick := func(l int, what string) int {
				if l <= 1 {
					return 0
				}
				return rapid.IntRange(0, l-1).Draw(t, what)
			}
			switch k {
			case 0: // message bytes
				if len(p.Contents) > 0 {
					i := pick(len(p.Contents), "i")
					p.Contents[i] = append(p.Contents[i], rapid.Byte().Draw(t, "b"))
				}
			case 1: // flip a byte of a message
				if len(p.Contents) > 0 {
					i := pick(len(p.Contents), "i")
					if len(p.Contents[i]) > 0 {
						p.Contents[i][pick(len(p.Contents[i]), "j")] ^= 1 << uint(rapid.IntRange(0, 7).Draw(t, "bit"))
					}
				}
			case 2: // node hash
				if len(*nodes) > 0 {
					v := (*nodes)[pick(len(*nodes), "i")].Value
					v[pick(len(v), "j")] ^= 1 << uint(rapid.IntRange(0, 7).Draw(t, "bit"))
				}
			case 3: // count
				if len(*nodes) > 0 {
					(*nodes)[pick(len(*nodes), "i")].NumOfLeaf += rapid.IntRange(-4, 4).Draw(t, "d")
				}
			case 4: // drop
				if len(*nodes) > 0 {
					i := pick(len(*nodes), "i")
					*nodes = append((*nodes)[:i:i], (*nodes)[i+1:]...)
				}
			case 5: // duplicate
				if len(*nodes) > 0 {
					i := pick(len(*nodes), "i")
					*nodes = append(*nodes, (*nodes)[i])
				}
			case 6: // move a message into a node
				if len(p.Contents) > 0 {
					i := len(p.Contents) - 1
					v := refHash(uid, p.Contents[i])
					p.Contents = p.Contents[:i]
					p.ProofInRight = append([]mbt.ProofNode{{NumOfLeaf: 1, Value: v}}, p.ProofInRight...)
				}
			case 7: // swap messages, or drop one
				if len(p.Contents) > 1 {
					i, j := pick(len(p.Contents), "i"), pick(len(p.Contents), "j")
					p.Contents[i], p.Contents[j] = p.Contents[j], p.Contents[i]
				} else {
					p.Contents = nil
				}
			case 8: // the children of an inner node as a message
				if n >= 2 {
					i := pick(n-1, "i")
					m := append(append([]byte{}, refHash(uid, cs[i])...), refHash(uid, cs[i+1])...)
					if len(p.Contents) > 0 {
						p.Contents[pick(len(p.Contents), "j")] = m
					}
				}
			case 10: // shift leaves from one node to another, on any side
				if l := len(p.ProofInLeft) + len(p.ProofInRight); l > 1 {
					at := func(i int) *mbt.ProofNode {
						if i < len(p.ProofInLeft) {
							return &p.ProofInLeft[i]
						}
						return &p.ProofInRight[i-len(p.ProofInLeft)]
					}
					d := rapid.IntRange(1, 4).Draw(t, "d")
					if rapid.IntRange(0, 3).Draw(t, "wrap") == 0 {
						d = 1 << uint(rapid.IntRange(60, 63).Draw(t, "bit")) // the sum wraps around
					}
					at(pick(l, "i")).NumOfLeaf -= d
					at(pick(l, "j")).NumOfLeaf += d
				}
			case 9: // split a node of two into two nodes, or reorder
				if len(*nodes) > 1 {
					i, j := pick(len(*nodes), "i"), pick(len(*nodes), "j")
					(*nodes)[i], (*nodes)[j] = (*nodes)[j], (*nodes)[i]
				}
			}
		}
		p.SetHashFunc(mbt.HashFuncByUID(uid))
		differs := !bytes.Equal(codec.RLP.MustMarshalToBytes(p), codec.RLP.MustMarshalToBytes(cloneProof(orig)))
		c.Key("%s n=%d [%d,%d] %v %x", uid, n, begin, end, edits, codec.RLP.MustMarshalToBytes(p))
		c.NonTrivial(differs)
		var h []byte
		var left, total int
		if pn := pbt.NoPanic(func() { h, left, total, err = p.Root() }); pn != "" {
			t.Fatalf("Root() of the edited proof %s: %s", p, pn)
		}
		if err != nil || !bytes.Equal(h, mt.Root()) || total != n {
			c.Label("rejected")
			return
		}
		c.Label("accepted")
		if left < 0 || left+len(p.Contents) > n {
			t.Fatalf("accepted proof claims messages %d..%d of %d", left+1, left+len(p.Contents), n)
		}
		for i, m := range p.Contents {
			if !bytes.Equal(m, cs[left+i]) {
				t.Fatalf("forged message %x accepted as message %d (is %x) with %s", m, left+i+1, cs[left+i], p)
			}
		}
	})
}
