package merkle

import (
	"bytes"
	"sort"
	"testing"

	ethrlp "github.com/ethereum/go-ethereum/rlp"
	"github.com/icon-project/btp/common/mpt"
	"pgregory.net/rapid"

	"verif/gocheck/pbt"
)

// A small reference Merkle Patricia trie (SHA3-256, every node referenced by
// hash: values are at least 33 bytes long).

type kv struct {
	nib []byte
	val []byte
}

func hp(nib []byte, leaf bool) []byte {
	f := byte(0)
	if leaf {
		f = 2
	}
	var out []byte
	if len(nib)%2 == 1 {
		out = []byte{(f+1)<<4 | nib[0]}
		nib = nib[1:]
	} else {
		out = []byte{f << 4}
	}
	for i := 0; i < len(nib); i += 2 {
		out = append(out, nib[i]<<4|nib[i+1])
	}
	return out
}

// build returns the serialised node and, for the wanted key, the proof below it.
func build(kvs []kv, depth int, want []byte) (node []byte, proof [][]byte) {
	enc := func(v interface{}) []byte {
		b, err := ethrlp.EncodeToBytes(v)
		if err != nil {
			panic(err)
		}
		return b
	}
	on := func(k kv) bool { return want != nil && bytes.Equal(k.nib, want) }
	if len(kvs) == 1 {
		node = enc([]interface{}{hp(kvs[0].nib[depth:], true), kvs[0].val})
		if on(kvs[0]) {
			proof = [][]byte{node}
		}
		return
	}
	common := 0
	for {
		d := depth + common
		x := kvs[0].nib[d]
		same := true
		for _, k := range kvs {
			if k.nib[d] != x {
				same = false
			}
		}
		if !same {
			break
		}
		common++
	}
	if common > 0 {
		child, p := build(kvs, depth+common, want)
		node = enc([]interface{}{hp(kvs[0].nib[depth:depth+common], false), sha(child)})
		if p != nil {
			proof = append([][]byte{node}, p...)
		}
		return
	}
	items := make([]interface{}, 17)
	for i := range items {
		items[i] = []byte{}
	}
	var below [][]byte
	for x := byte(0); x < 16; x++ {
		var sub []kv
		for _, k := range kvs {
			if k.nib[depth] == x {
				sub = append(sub, k)
			}
		}
		if len(sub) > 0 {
			child, p := build(sub, depth+1, want)
			items[x] = sha(child)
			if p != nil {
				below = p
			}
		}
	}
	node = enc(items)
	if below != nil {
		proof = append([][]byte{node}, below...)
	}
	return
}

func genTrie(t *rapid.T) []kv {
	n := rapid.IntRange(1, 30).Draw(t, "n")
	kl := rapid.IntRange(1, 5).Draw(t, "keylen")
	m := map[string][]byte{}
	for i := 0; i < n; i++ {
		nib := make([]byte, kl*2)
		for j := range nib {
			nib[j] = byte(rapid.SampledFrom([]int{0, 1, 2, 15}).Draw(t, "nib"))
		}
		v := bytes.Repeat([]byte{byte(i)}, rapid.IntRange(33, 60).Draw(t, "vlen"))
		m[string(nib)] = v
	}
	var kvs []kv
	for k, v := range m {
		kvs = append(kvs, kv{[]byte(k), v})
	}
	sort.Slice(kvs, func(i, j int) bool { return bytes.Compare(kvs[i].nib, kvs[j].nib) < 0 })
	return kvs
}

func TestM03_MptProof(t *testing.T) {
	pbt.Check(t, 3000, "proofs from random reference tries, intact and edited (bits flipped, nodes dropped, swapped, duplicated, replaced by others, garbage); non-trivial = proof of at least 2 nodes", func(t *rapid.T, c *pbt.Case) {
		kvs := genTrie(t)
		i := rapid.IntRange(0, len(kvs)-1).Draw(t, "i")
		root, proof := build(kvs, 0, kvs[i].nib)
		c.NonTrivial(len(proof) >= 2)
		mp, err := mpt.NewMptProof(proof)
		if err != nil {
			t.Fatalf("valid proof of %d nodes for %x rejected: %v", len(proof), kvs[i].nib, err)
		}
		if !bytes.Equal(mp.Hashes[0], sha(root)) || len(mp.Nodes) != len(proof) {
			t.Fatalf("the proof leads to another root")
		}
		if !bytes.Equal(mp.Leaf().Data, kvs[i].val) {
			t.Fatalf("the proof of %x carries %x, want %x", kvs[i].nib, mp.Leaf().Data, kvs[i].val)
		}
		for k, b := range proof {
			var items [][]byte
			if err := ethrlp.DecodeBytes(b, &items); err != nil {
				t.Fatalf("%v", err)
			}
			nd := mp.Nodes[k]
			if !bytes.Equal(mp.Hashes[k], sha(b)) {
				t.Fatalf("node %d has another hash", k)
			}
			if len(items) == 2 {
				if nd.Header == nil || nd.Header.Prefix != items[0][0] || !bytes.Equal(nd.Header.Nibbles, items[0][1:]) || nd.Header.IsLeaf() != (k == len(proof)-1) {
					t.Fatalf("node %d of %x has the header %+v", k, b, nd.Header)
				}
				if !nd.Header.IsLeaf() && (len(nd.Link) != 1 || !bytes.Equal(nd.Link[0].Hash, items[1])) {
					t.Fatalf("node %d of %x has another link", k, b)
				}
			} else {
				if nd.Header != nil || len(nd.Link) != 16 || !bytes.Equal(nd.Data, items[16]) {
					t.Fatalf("node %d of %x is no branch", k, b)
				}
				for j := range nd.Link {
					if !bytes.Equal(nd.Link[j].Hash, items[j]) {
						t.Fatalf("node %d of %x has another link %d", k, b, j)
					}
				}
			}
		}
		// edits
		bad := make([][]byte, len(proof))
		for k := range proof {
			bad[k] = append([]byte{}, proof[k]...)
		}
		k := rapid.IntRange(0, len(bad)-1).Draw(t, "k")
		kind := rapid.IntRange(0, 8).Draw(t, "edit")
		c.Key("%d keys, proof of %x (%d nodes), edit %d at %d", len(kvs), kvs[i].nib, len(proof), kind, k)
		switch kind {
		case 0:
			bad[k][rapid.IntRange(0, len(bad[k])-1).Draw(t, "pos")] ^= 1 << uint(rapid.IntRange(0, 7).Draw(t, "bit"))
		case 1:
			bad = append(bad[:k:k], bad[k+1:]...)
		case 2:
			j := rapid.IntRange(0, len(bad)-1).Draw(t, "j")
			bad[k], bad[j] = bad[j], bad[k]
		case 3:
			bad = append(bad, bad[k])
		case 4: // the leaf of another key
			o := rapid.IntRange(0, len(kvs)-1).Draw(t, "other")
			_, p2 := build(kvs, 0, kvs[o].nib)
			bad[len(bad)-1] = p2[len(p2)-1]
		case 5:
			bad[k] = rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "garbage")
		case 6:
			bad = bad[:k]
		case 7: // a leaf of the forger behind the real one
			forged, _ := build([]kv{{kvs[i].nib, bytes.Repeat([]byte{0xee}, 40)}}, 0, nil)
			bad = append(bad, forged)
		}
		if kind == 8 && k+1 < len(bad) { // a link that is only like the hash of the next node
			var items [][]byte
			if err := ethrlp.DecodeBytes(bad[k], &items); err != nil {
				t.Fatalf("%v", err)
			}
			for j := range items {
				if bytes.Equal(items[j], sha(bad[k+1])) {
					items[j] = resize(t, items[j])
				}
			}
			bad[k], _ = ethrlp.EncodeToBytes(items)
			for j := k - 1; j >= 0; j-- { // up to a root of the forger
				bad[j] = bytes.Replace(bad[j], sha(proof[j+1]), sha(bad[j+1]), 1)
			}
		}
		if len(bad) == 0 {
			return
		}
		var mb *mpt.MptProof
		if p := pbt.NoPanic(func() { mb, err = mpt.NewMptProof(bad) }); p != "" {
			t.Fatalf("edited proof: %s", p)
		}
		if err != nil {
			c.Label("rejected")
			return
		}
		c.Label("accepted")
		// accepted from the same root: then the leaf is one of the trie's
		if bytes.Equal(mb.Hashes[0], sha(root)) {
			ok := false
			for _, e := range kvs {
				ok = ok || bytes.Equal(e.val, mb.Leaf().Data)
			}
			if !ok {
				t.Fatalf("forged leaf %x accepted under the root", mb.Leaf().Data)
			}
		}
		for j := 1; j < len(bad); j++ {
			if !bytes.Contains(bad[j-1], sha(bad[j])) {
				t.Fatalf("node %d is not linked from node %d", j, j-1)
			}
		}
	})
}
