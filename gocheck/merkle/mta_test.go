package merkle

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"testing"

	"github.com/icon-project/btp/common/db"
	"github.com/icon-project/btp/common/mta"
	"pgregory.net/rapid"

	"verif/gocheck/pbt"
)

func sha(b ...[]byte) []byte { return refHash("icon", b...) }

func subtree(leaves [][]byte) []byte {
	if len(leaves) == 1 {
		return leaves[0]
	}
	h := len(leaves) / 2
	return sha(subtree(leaves[:h]), subtree(leaves[h:]))
}

// refWitness: siblings of leaf idx in an accumulator of the given leaves.
func refWitness(leaves [][]byte, idx int) (ws []mta.Witness) {
	off := 0
	for b := 40; b >= 0; b-- {
		sz := 1 << uint(b)
		if len(leaves)&sz == 0 {
			continue
		}
		if idx < off+sz {
			tree := leaves[off : off+sz]
			i := idx - off
			for w := 1; w < sz; w *= 2 {
				blk := i / w
				if blk%2 == 0 {
					ws = append(ws, mta.Witness{Direction: mta.Right, HashValue: subtree(tree[(blk+1)*w : (blk+2)*w])})
				} else {
					ws = append(ws, mta.Witness{Direction: mta.Left, HashValue: subtree(tree[(blk-1)*w : blk*w])})
				}
			}
			return ws
		}
		off += sz
	}
	return nil
}

func sameWitness(a, b []mta.Witness) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].Direction != b[i].Direction || !bytes.Equal(a[i].HashValue, b[i].HashValue) {
			return false
		}
	}
	return true
}

// faulty bucket: fails the write number failAt
type faulty struct {
	db.Bucket
	n, failAt int
}

var errInjected = errors.New("injected write failure")

func (f *faulty) Set(k, v []byte) error {
	f.n++
	if f.failAt > 0 && f.n >= f.failAt {
		return errInjected
	}
	return f.Bucket.Set(append([]byte{}, k...), append([]byte{}, v...))
}

// acc is what both accumulators offer.
type acc interface {
	AddHash(h []byte) []mta.Witness
	AddData(d []byte) []mta.Witness
	Flush() error
	Recover() error
	Len() int64
	Verify(ws []mta.Witness, h []byte) error
	WitnessFor(idx int64) ([]mta.Witness, error)
	WitnessForWithAccLength(idx, accLength int64) ([]mta.Witness, error)
	VerifyWithAccLength(ws []mta.Witness, h []byte, accLength int64) error
}

func newAcc(ext bool, bk db.Bucket, offset int64) acc {
	if ext {
		return mta.NewExtAccumulator([]byte("K"), bk, offset)
	}
	return &mta.Accumulator{KeyForState: []byte("K"), Bucket: bk}
}

func nodeAt(a acc, idx int64, offset int64) (mta.Node, error) {
	if e, ok := a.(*mta.ExtAccumulator); ok {
		return e.GetNode(idx + 1 + offset)
	}
	return a.(*mta.Accumulator).GetNode(idx)
}

func checkAcc(t *rapid.T, a acc, leaves [][]byte, offset int64, how string) {
	n := len(leaves)
	if a.Len() != int64(n) {
		t.Fatalf("%s: length %d, want %d", how, a.Len(), n)
	}
	if e, ok := a.(*mta.ExtAccumulator); ok && (e.Height() != int64(n)+offset || e.Offset() != offset) {
		t.Fatalf("%s: height %d offset %d, want %d %d", how, e.Height(), e.Offset(), int64(n)+offset, offset)
	}
	for i := 0; i < n; i++ {
		want := refWitness(leaves, i)
		ws, err := a.WitnessFor(int64(i))
		if err != nil || !sameWitness(ws, want) {
			t.Fatalf("%s: witness for %d of %d: %v, %v; want %v", how, i, n, ws, err, want)
		}
		if err := a.Verify(ws, leaves[i]); err != nil {
			t.Fatalf("%s: own witness for %d of %d rejected: %v", how, i, n, err)
		}
		nd, err := nodeAt(a, int64(i), offset)
		if err != nil || !bytes.Equal(nd.Hash(), leaves[i]) {
			t.Fatalf("%s: node %d of %d: %v, %v", how, i, n, nd, err)
		}
		if h := mta.GetHeightFromWitness(ws, int64(n)); h != int64(i) {
			t.Fatalf("%s: height from witness for %d of %d is %d", how, i, n, h)
		}
		if d := mta.GetDepthByHeightAndAccLength(int64(i), int64(n)); d != len(ws) {
			t.Fatalf("%s: depth for %d of %d is %d", how, i, n, d)
		}
		if rt := mta.HashesToWitness(mta.WitnessesToHashes(ws), int64(i)); !sameWitness(rt, ws) {
			t.Fatalf("%s: witness for %d of %d from its hashes: %v", how, i, n, rt)
		}
	}
	for _, x := range []int64{int64(n), int64(n) + 1, -1, -2, -int64(n) - 1} {
		if _, err := a.WitnessFor(x); err == nil {
			t.Fatalf("%s: witness for %d of %d", how, x, n)
		}
		if _, err := nodeAt(a, x, offset); err == nil {
			t.Fatalf("%s: node %d of %d", how, x, n)
		}
	}
}

func TestM02_History(t *testing.T) {
	silence(t)
	pbt.Check(t, 700, "random add/flush/recover histories (up to 45 leaves) with injected write failures during flush, on both accumulators; non-trivial = a recover or a failed flush after at least 3 leaves", func(t *rapid.T, c *pbt.Case) {
		ext := rapid.Bool().Draw(t, "ext")
		var offset int64
		if ext {
			offset = int64(rapid.IntRange(0, 50).Draw(t, "offset"))
		}
		mdb := db.NewMapDB()
		real, _ := mdb.GetBucket("X")
		bk := &faulty{Bucket: real}
		a := newAcc(ext, bk, offset)
		var leaves, flushed [][]byte
		ops := ""
		for i := rapid.IntRange(1, 25).Draw(t, "ops"); i > 0; i-- {
			switch k := rapid.IntRange(0, 9).Draw(t, "op"); {
			case k <= 5:
				m := rapid.IntRange(1, 4).Draw(t, "burst")
				if len(leaves) < 300 && pbt.Pct(t, "big", 1) {
					m = rapid.IntRange(60, 300).Draw(t, "many")
				}
				for ; m > 0; m-- {
					d := []byte(fmt.Sprintf("leaf-%d-%d", len(leaves), rapid.IntRange(0, 3).Draw(t, "d")))
					var ws []mta.Witness
					if rapid.Bool().Draw(t, "data") {
						ws = a.AddData(d)
						leaves = append(leaves[:len(leaves):len(leaves)], sha(d))
						ops += "D"
					} else {
						ws = a.AddHash(sha(d))
						leaves = append(leaves[:len(leaves):len(leaves)], sha(d))
						ops += "H"
					}
					if want := refWitness(leaves, len(leaves)-1); !sameWitness(ws, want) {
						t.Fatalf("%s: adding leaf %d returned %v, want %v", ops, len(leaves), ws, want)
					}
				}
			case k == 6 || k == 7:
				ops += "F"
				if err := a.Flush(); err != nil {
					t.Fatalf("%s: flush: %v", ops, err)
				}
				flushed = leaves
			case k == 8: // crash: recover what was flushed
				ops += "R"
				c.NonTrivial(len(leaves) >= 3)
				a = newAcc(ext, bk, offset)
				if err := a.Recover(); err != nil {
					t.Fatalf("%s: recover: %v", ops, err)
				}
				leaves = flushed
				checkAcc(t, a, leaves, offset, ops)
				if d := int64(rapid.SampledFrom([]int{-7, -1, 1, 2}).Draw(t, "otherOffset")); ext && flushed != nil && offset+d >= 0 {
					if err := newAcc(ext, bk, offset+d).Recover(); err == nil {
						t.Fatalf("%s: state of offset %d was recovered as of offset %d", ops, offset, offset+d)
					}
				}
			case k == 9: // a write fails during flush
				bk.n, bk.failAt = 0, rapid.IntRange(1, 12).Draw(t, "failAt")
				err := a.Flush()
				bk.failAt = 0
				ops += "x"
				if err == nil {
					flushed = leaves
				} else {
					c.NonTrivial(len(leaves) >= 3)
					if !errors.Is(err, errInjected) {
						t.Fatalf("%s: flush: %v", ops, err)
					}
					b := newAcc(ext, bk, offset)
					if err := b.Recover(); err != nil {
						t.Fatalf("%s: recover after failed flush: %v", ops, err)
					}
					checkAcc(t, b, flushed, offset, ops+"(recovered)")
					if rapid.Bool().Draw(t, "crash") {
						a, leaves = b, flushed
					}
				}
			}
		}
		c.Key("ext=%v off=%d %s", ext, offset, ops)
		checkAcc(t, a, leaves, offset, ops)
	})
}

func silence(t *testing.T) {
	// WitnessForAt prints to the standard output
	if f, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		old := os.Stdout
		os.Stdout = f
		t.Cleanup(func() { os.Stdout = old; f.Close() })
	}
}

func TestM02_OldAndNewWitness(t *testing.T) {
	silence(t)
	pbt.Check(t, 3000, "witnesses taken at one length and checked by an accumulator of another length (older, same, newer); non-trivial = different lengths with the leaf in both", func(t *rapid.T, c *pbt.Case) {
		ext := rapid.Bool().Draw(t, "ext")
		var offset int64
		if ext {
			offset = int64(rapid.IntRange(0, 50).Draw(t, "offset"))
		}
		max := 70
		if pbt.Pct(t, "big", 5) {
			max = 600
		}
		nw := rapid.IntRange(1, max).Draw(t, "proverLen")
		nv := rapid.IntRange(1, max).Draw(t, "verifierLen")
		var leaves [][]byte
		for i := 0; i < nw || i < nv; i++ {
			leaves = append(leaves, sha([]byte(fmt.Sprint(i))))
		}
		mk := func(n int) acc {
			bk, _ := db.NewMapDB().GetBucket("X")
			a := newAcc(ext, bk, offset)
			for i := 0; i < n; i++ {
				a.AddHash(leaves[i])
			}
			return a
		}
		p, v := mk(nw), mk(nv)
		min := nw
		if nv < min {
			min = nv
		}
		idx := rapid.IntRange(0, min-1).Draw(t, "idx")
		c.Key("ext=%v off=%d prover=%d verifier=%d idx=%d", ext, offset, nw, nv, idx)
		c.NonTrivial(nw != nv)
		ws, err := p.WitnessFor(int64(idx))
		if err != nil {
			t.Fatalf("witness: %v", err)
		}
		pass := func(ws []mta.Witness, at int, what string) {
			var err error
			if pn := pbt.NoPanic(func() { err = v.VerifyWithAccLength(ws, leaves[idx], int64(at)) }); pn != "" {
				t.Fatalf("%s: %s", what, pn)
			}
			if err != nil {
				t.Fatalf("%s: witness of leaf %d at length %d rejected by an accumulator of length %d: %v", what, idx, at, nv, err)
			}
			bad := append([]byte{}, leaves[idx]...)
			bad[rapid.IntRange(0, 31).Draw(t, "pos")] ^= 1
			if err := v.VerifyWithAccLength(ws, bad, int64(at)); err == nil {
				t.Fatalf("%s: forged leaf accepted", what)
			}
		}
		pass(ws, nw, "at the prover's length")
		// a prover that knows the verifier's length (older, or the same)
		if nv <= nw {
			wv, err := p.WitnessForWithAccLength(int64(idx), int64(nv))
			if err != nil || !sameWitness(wv, refWitness(leaves[:nv], idx)) {
				t.Fatalf("witness of leaf %d for length %d from length %d: %v, %v", idx, nv, nw, wv, err)
			}
			pass(wv, nv, "made for the verifier's length")
		}
		// no witness for a length that does not have the leaf
		if lw, err := p.WitnessForWithAccLength(int64(idx), int64(rapid.IntRange(0, idx).Draw(t, "short"))); err == nil {
			t.Fatalf("witness %v of leaf %d for a length that does not have it", lw, idx)
		}
		if ext {
			pe, ve := p.(*mta.ExtAccumulator), v.(*mta.ExtAccumulator)
			at, wa, err := pe.WitnessForAt(int64(idx)+1+offset, int64(nv)+offset, offset)
			wantAt := int64(min) + offset
			if err != nil || at != wantAt || !sameWitness(wa, refWitness(leaves[:min], idx)) {
				t.Fatalf("WitnessForAt(%d,%d): at %d (want %d), %v, %v", int64(idx)+1+offset, int64(nv)+offset, at, wantAt, wa, err)
			}
			if err := ve.VerifyAt(wa, leaves[idx], at, offset); err != nil {
				t.Fatalf("VerifyAt: leaf %d, at %d, verifier height %d: %v", idx, at, ve.Height(), err)
			}
			if _, _, err := pe.WitnessForAt(1+offset, 1+offset, offset+1); err == nil {
				t.Fatalf("another offset was accepted")
			}
			for _, d := range []int64{-1, 1} {
				if err := ve.VerifyAt(wa, leaves[idx], at, offset+d); err == nil {
					t.Fatalf("a witness of another offset was accepted")
				}
			}
		}
	})
}

// resize adds bytes to a hash or takes some away.
func resize(t *rapid.T, h []byte) []byte {
	h = append([]byte{}, h...)
	switch rapid.IntRange(0, 3).Draw(t, "resize") {
	case 0:
		return append(h, rapid.SliceOfN(rapid.Byte(), 1, 40).Draw(t, "tail")...)
	case 1:
		return append(make([]byte, rapid.IntRange(1, 33).Draw(t, "zeros")), h...)
	case 2:
		return h[:rapid.IntRange(0, len(h)).Draw(t, "cut")]
	}
	return h[len(h)-rapid.IntRange(0, len(h)).Draw(t, "keep"):]
}

// TestM02_ForgedAt checks forged witnesses said to be of another length: no
// such witness makes the accumulator fail, and none proves what was not added.
func TestM02_ForgedAt(t *testing.T) {
	silence(t)
	pbt.Check(t, 5000, "witnesses of any shape said to be of any length, checked by an accumulator of some length; non-trivial = the said length is another", func(t *rapid.T, c *pbt.Case) {
		n := rapid.IntRange(0, 40).Draw(t, "n")
		ext := rapid.Bool().Draw(t, "ext")
		bk, _ := db.NewMapDB().GetBucket("X")
		a := newAcc(ext, bk, 0)
		var leaves [][]byte
		more := n + rapid.IntRange(1, 20).Draw(t, "more")
		for i := 0; i < more; i++ {
			leaves = append(leaves, sha([]byte(fmt.Sprint(i))))
			// some hashes end in zeros, as hashes may
			if i%5 == 3 {
				leaves[i][31] = 0
			}
			if i < n {
				a.AddHash(leaves[i])
			}
		}
		from := rapid.IntRange(1, more).Draw(t, "from")
		idx := rapid.IntRange(0, from-1).Draw(t, "idx")
		ws := append([]mta.Witness{}, refWitness(leaves[:from], idx)...)
		h := append([]byte{}, leaves[idx]...)
		said := int64(from)
		var edits []int
		for e := rapid.IntRange(0, 3).Draw(t, "edits"); e > 0; e-- {
			k := rapid.IntRange(0, 6).Draw(t, "edit")
			edits = append(edits, k)
			i := 0
			if len(ws) > 1 {
				i = rapid.IntRange(0, len(ws)-1).Draw(t, "i")
			}
			switch {
			case k == 0:
				said = rapid.Int64Range(-2, 80).Draw(t, "said")
			case k == 1:
				h = resize(t, h)
			case k == 2:
				h = append([]byte{}, leaves[rapid.IntRange(0, more-1).Draw(t, "other")]...)
			case k == 3 || len(ws) == 0:
				for j := rapid.IntRange(1, 5).Draw(t, "grow"); j > 0; j-- {
					ws = append(ws, mta.Witness{Direction: mta.Direction(rapid.IntRange(0, 1).Draw(t, "dir")), HashValue: leaves[0]})
				}
			case k == 4:
				ws = ws[:i:i]
			case k == 5:
				ws[i].Direction = 1 - ws[i].Direction
			case k == 6:
				ws[i].HashValue = resize(t, ws[i].HashValue)
			}
		}
		c.Key("ext=%v n=%d from=%d idx=%d said=%d edits=%v", ext, n, from, idx, said, edits)
		c.NonTrivial(said != int64(n))
		var err error
		p := pbt.NoPanic(func() {
			if e, ok := a.(*mta.ExtAccumulator); ok && rapid.Bool().Draw(t, "at") {
				err = e.VerifyAt(ws, h, said, 0)
			} else {
				err = a.VerifyWithAccLength(ws, h, said)
			}
		})
		if p != "" {
			t.Fatalf("a witness of %d hashes said to be of length %d stops an accumulator of length %d: %s", len(ws), said, n, p)
		}
		c.Label(map[bool]string{true: "accepted", false: "rejected"}[err == nil])
		if err == nil {
			for _, l := range leaves[:n] {
				if bytes.Equal(l, h) {
					return
				}
			}
			t.Fatalf("a witness said to be of length %d proves %x, which an accumulator of length %d does not have (edits %v)", said, h, n, edits)
		}
	})
}

func TestM02_Sound(t *testing.T) {
	silence(t)
	pbt.Check(t, 5000, "witnesses with edits (hash bits, direction, dropped, added, swapped, inner nodes as leaves); non-trivial = edited", func(t *rapid.T, c *pbt.Case) {
		n := rapid.IntRange(1, 40).Draw(t, "n")
		bk, _ := db.NewMapDB().GetBucket("X")
		a := newAcc(rapid.Bool().Draw(t, "ext"), bk, 0)
		var leaves [][]byte
		for i := 0; i < n; i++ {
			leaves = append(leaves, sha([]byte(fmt.Sprint(i))))
			a.AddHash(leaves[i])
		}
		idx := rapid.IntRange(0, n-1).Draw(t, "idx")
		ws := append([]mta.Witness{}, refWitness(leaves, idx)...)
		h := append([]byte{}, leaves[idx]...)
		var edits []int
		for e := rapid.IntRange(1, 2).Draw(t, "edits"); e > 0; e-- {
			k := rapid.IntRange(0, 8).Draw(t, "edit")
			edits = append(edits, k)
			i := 0
			if len(ws) > 1 {
				i = rapid.IntRange(0, len(ws)-1).Draw(t, "i")
			}
			switch {
			case k == 0 && len(h) == 32:
				h[rapid.IntRange(0, 31).Draw(t, "pos")] ^= byte(rapid.IntRange(1, 255).Draw(t, "xor"))
			case len(ws) == 0:
				ws = append(ws, mta.Witness{Direction: mta.Left, HashValue: h})
			case k == 7: // bytes that are not the hash
				h = resize(t, h)
			case k == 8:
				ws[i].HashValue = resize(t, ws[i].HashValue)
			case k == 1 && len(ws[i].HashValue) == 32:
				v := append([]byte{}, ws[i].HashValue...)
				v[rapid.IntRange(0, 31).Draw(t, "pos")] ^= byte(rapid.IntRange(1, 255).Draw(t, "xor"))
				ws[i].HashValue = v
			case k == 2:
				ws[i].Direction = 1 - ws[i].Direction
			case k == 3:
				ws = append(ws[:i:i], ws[i+1:]...)
			case k == 4:
				ws = append(ws, ws[i])
			case k == 5: // inner node instead of the leaf
				if ws[0].Direction == mta.Left {
					h = sha(ws[0].HashValue, h)
				} else {
					h = sha(h, ws[0].HashValue)
				}
				ws = ws[1:]
			case k == 6:
				h = append([]byte{}, leaves[rapid.IntRange(0, n-1).Draw(t, "other")]...)
			}
		}
		c.Key("n=%d idx=%d edits=%v", n, idx, edits)
		c.NonTrivial(true)
		if err := a.Verify(ws, h); err != nil {
			c.Label("rejected")
			return
		}
		c.Label("accepted")
		// accepted: then it must be a leaf with its own witness
		hi := mta.GetHeightFromWitness(ws, int64(n))
		if hi < 0 || hi >= int64(n) || !bytes.Equal(leaves[hi], h) || !sameWitness(ws, refWitness(leaves, int(hi))) {
			t.Fatalf("edits %v of the witness for %d of %d were accepted for %x as leaf %d", edits, idx, n, h, hi)
		}
	})
}
