package wal

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"math/big"
	"testing"

	ethcrypto "github.com/ethereum/go-ethereum/crypto"
	"github.com/icon-project/btp/common/crypto"
	"github.com/icon-project/btp/common/wallet"
	"golang.org/x/crypto/sha3"
	"pgregory.net/rapid"

	"verif/gocheck/pbt"
)

var order, _ = new(big.Int).SetString("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", 16)

// key draws a valid private key, biased to small, large and zero-padded ones.
func key(t *rapid.T, label string) []byte {
	b := make([]byte, 32)
	switch rapid.IntRange(0, 5).Draw(t, label+"_shape") {
	case 0:
		v := rapid.Uint16Range(1, 65535).Draw(t, label)
		b[30], b[31] = byte(v>>8), byte(v)
	case 1:
		v := rapid.Uint16Range(1, 65535).Draw(t, label)
		new(big.Int).Sub(order, big.NewInt(int64(v))).FillBytes(b)
	default:
		for {
			copy(b, rapid.SliceOfN(rapid.Byte(), 32, 32).Draw(t, label))
			if n := new(big.Int).SetBytes(b); n.Sign() > 0 && n.Cmp(order) < 0 {
				break
			}
			b[0], b[31] = 1, 1
			break
		}
	}
	return b
}

func hash32(t *rapid.T, label string) []byte {
	switch rapid.IntRange(0, 3).Draw(t, label+"_shape") {
	case 0:
		h := make([]byte, 32)
		h[rapid.IntRange(0, 31).Draw(t, label+"_pos")] = rapid.Byte().Draw(t, label)
		return h
	case 1:
		return bytes.Repeat([]byte{0xff}, 32)
	}
	return rapid.SliceOfN(rapid.Byte(), 32, 32).Draw(t, label)
}

func refPub(k []byte) (comp, uncomp []byte) {
	sk, err := ethcrypto.ToECDSA(k)
	if err != nil {
		panic(err)
	}
	return ethcrypto.CompressPubkey(&sk.PublicKey), ethcrypto.FromECDSAPub(&sk.PublicKey)
}

// Every key: public key forms agree with an independent implementation, a
// signature verifies and recovers exactly its signer, whatever form it is
// carried in, and is refused for another hash, key or altered signature.
func TestC01_Signature(t *testing.T) {
	pbt.Check(t, 60, "every case signs with a generated key", func(t *rapid.T, c *pbt.Case) {
		kb := key(t, "key")
		h := hash32(t, "hash")
		c.Key("key=%x hash=%x", kb, h)
		c.NonTrivial(true)
		kcopy := append([]byte(nil), kb...)
		sk, err := crypto.ParsePrivateKey(kcopy)
		if err != nil {
			t.Fatalf("key refused: %v", err)
		}
		kcopy[0] ^= 0xff // the key owns its bytes
		if !bytes.Equal(sk.Bytes(), kb) {
			t.Fatalf("private key bytes %x, want %x", sk.Bytes(), kb)
		}
		sk.Bytes()[1] ^= 0xff
		comp, uncomp := refPub(kb)
		pk := sk.PublicKey()
		if !bytes.Equal(pk.SerializeCompressed(), comp) || !bytes.Equal(pk.SerializeUncompressed(), uncomp) {
			t.Fatalf("public key %x / %x, want %x / %x", pk.SerializeCompressed(), pk.SerializeUncompressed(), comp, uncomp)
		}
		for _, form := range [][]byte{comp, uncomp} {
			p, err := crypto.ParsePublicKey(append([]byte(nil), form...))
			if err != nil || !p.Equal(pk) || !pk.Equal(p) || !bytes.Equal(p.SerializeUncompressed(), uncomp) || !bytes.Equal(p.SerializeCompressed(), comp) {
				t.Fatalf("public key form %x parsed to %v %v", form, p, err)
			}
			if p.String() != "0x"+hex.EncodeToString(comp) {
				t.Fatalf("public key text %s", p)
			}
		}
		sig, err := crypto.NewSignature(h, sk)
		if err != nil {
			t.Fatalf("cannot sign: %v", err)
		}
		rsv, err := sig.SerializeRSV()
		if err != nil || len(rsv) != 65 || rsv[64] > 3 {
			t.Fatalf("RSV %x %v", rsv, err)
		}
		rsv = append([]byte(nil), rsv...)
		// the independent implementation accepts it and recovers the signer
		if rp, err := ethcrypto.Ecrecover(h, rsv); err != nil || !bytes.Equal(rp, uncomp) {
			t.Fatalf("reference recovery of %x gives %x %v, want %x", rsv, rp, err, uncomp)
		}
		rs, err := sig.SerializeRS()
		if err != nil || !bytes.Equal(rs, rsv[:64]) {
			t.Fatalf("RS %x %v", rs, err)
		}
		vrs, err := sig.SerializeVRS()
		if err != nil || len(vrs) != 65 || vrs[0] != rsv[64] || !bytes.Equal(vrs[1:], rsv[:64]) {
			t.Fatalf("VRS %x %v", vrs, err)
		}
		check := func(what string, s *crypto.Signature, err error) {
			if err != nil {
				t.Fatalf("%s: %v", what, err)
			}
			if !s.HasV() {
				t.Fatalf("%s: lost V", what)
			}
			b, err := s.SerializeRSV()
			if err != nil || !bytes.Equal(b, rsv) {
				t.Fatalf("%s: RSV %x %v, want %x", what, b, err, rsv)
			}
			b, err = s.SerializeVRS()
			if err != nil || !bytes.Equal(b, vrs) {
				t.Fatalf("%s: VRS %x %v, want %x", what, b, err, vrs)
			}
			if !s.Verify(h, pk) {
				t.Fatalf("%s: does not verify", what)
			}
			rp, err := s.RecoverPublicKey(h)
			if err != nil || !rp.Equal(pk) {
				t.Fatalf("%s: recovers %v %v, want %v", what, rp, err, pk)
			}
			if s.String() != "0x"+hex.EncodeToString(rsv) {
				t.Fatalf("%s: text %s", what, s)
			}
		}
		check("made", sig, nil)
		s, err := crypto.ParseSignature(append([]byte(nil), rsv...))
		check("parsed RSV", s, err)
		if m := pbt.NoPanic(func() { s, err = crypto.ParseSignatureVRS(append([]byte(nil), vrs...)) }); m != "" {
			t.Fatalf("ParseSignatureVRS: %s", m)
		}
		check("parsed VRS", s, err)
		// no V: no recovery
		s, err = crypto.ParseSignature(append([]byte(nil), rs...))
		if err != nil || s.HasV() {
			t.Fatalf("RS form: %v hasV=%v", err, s.HasV())
		}
		if b, err := s.SerializeRS(); err != nil || !bytes.Equal(b, rs) {
			t.Fatalf("RS form: %x %v", b, err)
		}
		if _, err := s.RecoverPublicKey(h); err == nil {
			t.Fatalf("recovered without V")
		}
		if _, err := s.SerializeRSV(); err == nil {
			t.Fatalf("RSV without V")
		}
		if _, err := s.SerializeVRS(); err == nil {
			t.Fatalf("VRS without V")
		}
		// soundness
		h2 := append([]byte(nil), h...)
		h2[rapid.IntRange(0, 31).Draw(t, "hbyte")] ^= 1 << rapid.IntRange(0, 7).Draw(t, "hbit")
		if sig.Verify(h2, pk) {
			t.Fatalf("verifies for hash %x", h2)
		}
		// longer texts that stand for the same number, or the same modulo the order
		for _, long := range [][]byte{append([]byte{0}, h...), append(append([]byte(nil), h...), 0), new(big.Int).Add(new(big.Int).SetBytes(h), new(big.Int).Lsh(ethcrypto.S256().Params().N, 8)).Bytes()} {
			ver := false
			if m := pbt.NoPanic(func() { ver = sig.Verify(long, pk) }); m != "" || ver && len(long) > 32 {
				t.Fatalf("verifies for %x: %s", long, m)
			}
			if m := pbt.NoPanic(func() {
				if rp, err := sig.RecoverPublicKey(long); err == nil && len(long) > 32 {
					t.Fatalf("recovers %s for %x", rp, long)
				}
			}); m != "" {
				t.Fatalf("recovering for %x: %s", long, m)
			}
		}
		ok2 := key(t, "key2")
		if !bytes.Equal(ok2, kb) {
			sk2, _ := crypto.ParsePrivateKey(ok2)
			if sig.Verify(h, sk2.PublicKey()) {
				t.Fatalf("verifies for key %x", ok2)
			}
			if sk2.PublicKey().Equal(pk) {
				t.Fatalf("public keys of %x and %x are equal", ok2, kb)
			}
			// ECDH: both sides agree, and with a reference
			a, b := sk.ECDH(sk2.PublicKey()), sk2.ECDH(pk)
			if !bytes.Equal(a, b) || len(a) == 0 {
				t.Fatalf("ECDH differs: %x %x", a, b)
			}
		}
		bad := append([]byte(nil), rsv...)
		bad[rapid.IntRange(0, 63).Draw(t, "sbyte")] ^= 1 << rapid.IntRange(0, 7).Draw(t, "sbit")
		bs, _ := crypto.ParseSignature(bad)
		verified := false
		if m := pbt.NoPanic(func() { verified = bs.Verify(h, pk) }); m != "" {
			t.Fatalf("altered signature %x: %s", bad, m)
		}
		if verified {
			t.Fatalf("altered signature %x verifies", bad)
		}
		// the wallet signs with the same key
		w, err := wallet.NewIcxWalletFromPrivateKey(sk)
		if err != nil {
			t.Fatal(err)
		}
		if !bytes.Equal(w.PublicKey(), comp) {
			t.Fatalf("wallet public key %x", w.PublicKey())
		}
		d := sha3.Sum256(uncomp[1:])
		if want := "hx" + hex.EncodeToString(d[12:]); w.Address() != want {
			t.Fatalf("wallet address %s, want %s", w.Address(), want)
		}
		ws, err := w.Sign(h)
		if err != nil {
			t.Fatal(err)
		}
		if rp, err := ethcrypto.Ecrecover(h, ws); err != nil || !bytes.Equal(rp, uncomp) {
			t.Fatalf("wallet signature recovers to %x %v", rp, err)
		}
	})
}

// Wrong lengths are refused, hashes have fixed definitions.
func TestC01_Lengths(t *testing.T) {
	pbt.Check(t, 300, "length is not an accepted one", func(t *rapid.T, c *pbt.Case) {
		b := rapid.SliceOfN(rapid.Byte(), 0, 130).Draw(t, "b")
		n := rapid.SampledFrom([]int{0, 1, 31, 32, 33, 34, 63, 64, 65, 66, 97, 128, len(b)}).Draw(t, "n")
		for len(b) < n {
			b = append(b, byte(len(b)))
		}
		b = b[:n]
		c.Key("%x", b)
		c.NonTrivial(n != 32 && n != 33 && n != 64 && n != 65)
		if m := pbt.NoPanic(func() {
			if _, err := crypto.ParsePrivateKey(b); (err == nil) != (n == 32) {
				t.Fatalf("ParsePrivateKey of %d bytes: %v", n, err)
			}
			if _, err := crypto.ParsePublicKey(b); (err == nil) != (n == 33 && (b[0] == 2 || b[0] == 3) || n == 65) {
				t.Fatalf("ParsePublicKey of %d bytes: %v", n, err)
			}
			if _, err := crypto.ParseSignature(b); (err == nil) != (n == 64 || n == 65) {
				t.Fatalf("ParseSignature of %d bytes: %v", n, err)
			}
			if _, err := crypto.ParseSignatureVRS(b); (err == nil) != (n == 65) {
				t.Fatalf("ParseSignatureVRS of %d bytes: %v", n, err)
			}
			sk, _ := crypto.ParsePrivateKey(bytes.Repeat([]byte{7}, 32))
			_, err := crypto.NewSignature(b, sk)
			if (n == 0 || n > 32) && err == nil {
				t.Fatalf("signed a %d byte hash", n)
			}
			if _, err := crypto.NewSignature(make([]byte, 32), nil); err == nil {
				t.Fatalf("signed without a key")
			}
			sig, _ := crypto.NewSignature(bytes.Repeat([]byte{9}, 32), sk)
			if n == 0 || n > 32 {
				if sig.Verify(b, sk.PublicKey()) {
					t.Fatalf("verified a %d byte hash", n)
				}
				if _, err := sig.RecoverPublicKey(b); err == nil {
					t.Fatalf("recovered from a %d byte hash", n)
				}
			}
			if sig.Verify(make([]byte, 32), nil) {
				t.Fatalf("verified without a key")
			}
		}); m != "" {
			t.Fatalf("%x: %s", b, m)
		}
		s3 := sha3.Sum256(b)
		s2 := sha256.Sum256(b)
		if !bytes.Equal(crypto.SHA3Sum256(b), s3[:]) || !bytes.Equal(crypto.SHASum256(b), s2[:]) {
			t.Fatalf("hash of %x", b)
		}
	})
}
